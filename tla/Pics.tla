-------------------------------- MODULE Pics -------------------------------
(* The pictures a map needs: those of its textures and those of its sky.     *)
(* `store` are the installed pictures, a folder of the game what was put     *)
(* there: functions from the name of a picture to its content.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(folder, store, S) == [p \in DOMAIN folder \cup S |-> IF p \in S THEN store[p] ELSE folder[p]]
Needs(pics, used) == UNION {pics[k] : k \in used}
SkySides == {"_bk.jpg", "_dn.jpg", "_ft.jpg", "_lf.jpg", "_rt.jpg", "_up.jpg"}
SkyPics(name) == {name \o x : x \in SkySides}
SkyPath(name) == "hxr/skybox/" \o name
=============================================================================
