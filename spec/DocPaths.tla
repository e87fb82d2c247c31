------------------------------ MODULE DocPaths ------------------------------
(***************************************************************************)
(* Document paths are values: sequences of segments, which never change.   *)
(* A segment has the node it leads to (by identity), the type of the node, *)
(* and a name or a position.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Seg(id, ty, nm, ix) == [id |-> id, ty |-> ty, nm |-> nm, ix |-> ix]

PKey(p, nm, id, ty) == Append(p, Seg(id, ty, nm, 0))
PIndex(p, ix, id, ty) == Append(p, Seg(id, ty, <<>>, ix))
PPush(p, seg) == Append(p, seg)
PPop(p) == SubSeq(p, 1, Len(p) - 1)
PLast(p) == p[Len(p)]
=============================================================================
