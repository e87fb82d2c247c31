------------------------------ MODULE DocModel ------------------------------
(***************************************************************************)
(* The document model that the library searches (DocModel in docmodel.go), *)
(* as it must be answered for a document that is a tree: objects have      *)
(* names ks and children vs, arrays children vs, everything else is a      *)
(* value.  Members of objects are told by name only: their order is not    *)
(* part of the model.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ValueNode == 0
ObjectNode == 1
ArrayNode == 2

MType(n) == CASE n.k = "obj" -> ObjectNode [] n.k = "arr" -> ArrayNode [] OTHER -> ValueNode
\* of objects and arrays
MLen(n) == Len(n.vs)
\* the names of an object
MNames(n) == {n.ks[i] : i \in 1..Len(n.ks)}
\* lists of all names, each of them once
MKeys(n, list) == /\ Len(list) = Len(n.ks)
                  /\ {list[i] : i \in 1..Len(list)} = MNames(n)
\* the member of an object, or nothing
MKey(n, nm) == IF nm \in MNames(n) THEN <<n.vs[CHOOSE i \in 1..Len(n.ks) : n.ks[i] = nm]>> ELSE <<>>
\* the element at a position from 0, within an array
MElem(n, i) == n.vs[i + 1]
\* of values
MValue(n) == n
=============================================================================
