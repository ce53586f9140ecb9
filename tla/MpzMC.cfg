SPECIFICATION Spec
CONSTANTS MaxEdits = 1
 MaxRich = 1
 Counts = {1}
 RichAt = {8, 1, 15}
INVARIANTS ReadBack CutNoticed Counted SaveStable BuiltFirst VarsUnique EightRoots Unknown
CHECK_DEADLOCK FALSE
