SPECIFICATION Spec
CONSTANTS MaxEdits = 1
 MaxRich = 2
 Counts = {0, 1}
 RichAt = {8, 15}
INVARIANTS ReadBack CutNoticed Counted SaveStable BuiltFirst VarsUnique EightRoots Unknown
CHECK_DEADLOCK FALSE
