------------------------------ MODULE TraceModel ------------------------------
(***************************************************************************)
(* Validation of recorded conversations with the map model.  The documents *)
(* of a session were recorded before the conversation; every event is a    *)
(* question and its answer:                                                *)
(*   root     d: the node of document d is given                           *)
(*   type     h, n        len  h, n       keys  h, ks                      *)
(*   key      h, nm, ok: whether a member was given, and r                 *)
(*   elem     h, i: r is given            value  h, r                      *)
(*   rebuilt  h, r: what was rebuilt from answers only                     *)
(*   doc      d, r: the document as it is now                              *)
(* Given nodes are handles, in order.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, DocModel

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ses, at, hs, acc, rejected
vars == <<ses, at, hs, acc, rejected>>

Docs == Sessions[ses].mdocs
Events == Sessions[ses].ev
Now == Events[at + 1]

\* nodes that the event gives
Given(e) == CASE e.o = "root" -> <<Docs[e.d]>>
              [] e.o = "key" -> MKey(hs[e.h], e.nm)
              [] e.o = "elem" -> <<MElem(hs[e.h], e.i)>>
              [] OTHER -> <<>>
Right(e) ==
  CASE e.o = "root" -> e.r = Docs[e.d]
    [] e.o = "type" -> e.n = MType(hs[e.h])
    [] e.o = "len" -> e.n = MLen(hs[e.h])
    [] e.o = "keys" -> MKeys(hs[e.h], e.ks)
    [] e.o = "key" -> LET m == MKey(hs[e.h], e.nm) IN IF m = <<>> THEN ~e.ok ELSE e.ok /\ e.r = m[1]
    [] e.o = "elem" -> e.r = MElem(hs[e.h], e.i)
    [] e.o = "value" -> e.r = MValue(hs[e.h])
    [] e.o = "rebuilt" -> e.r = hs[e.h]
    [] e.o = "doc" -> e.r = Docs[e.d]
Wanted(e) ==
  CASE e.o = "type" -> MType(hs[e.h])
    [] e.o = "len" -> MLen(hs[e.h])
    [] e.o = "keys" -> hs[e.h].ks
    [] e.o = "value" -> hs[e.h]
    [] e.o \in {"root", "key", "elem"} -> Given(e)
    [] OTHER -> "the document as it was recorded"

More == ~rejected /\ at < Len(Events)
Question == /\ More
            /\ at' = at + 1
            /\ LET e == Now
                   ok == IF e.pan THEN FALSE ELSE Right(e)
               IN /\ acc' = IF ok THEN acc + 1 ELSE acc
                  /\ rejected' = ~ok
                  /\ IF ok THEN hs' = hs \o Given(e)
                     ELSE /\ PrintT(ToJson(<<"R", Sessions[ses].id, at + 1, 1, Wanted(e)>>))
                          /\ UNCHANGED hs
            /\ UNCHANGED ses
Finish == /\ ~More /\ at <= Len(Events)
          /\ PrintT(ToJson(<<"S", Sessions[ses].id, acc, 0, IF rejected THEN 1 ELSE 0, acc>>))
          /\ at' = Len(Events) + 1
          /\ UNCHANGED <<ses, hs, acc, rejected>>
Init == ses \in 1..Len(Sessions) /\ at = 0 /\ hs = <<>> /\ acc = 0 /\ rejected = FALSE
Next == Question \/ Finish
Spec == Init /\ [][Next]_vars
View == <<ses, at>>
=============================================================================
