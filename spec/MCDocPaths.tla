----------------------------- MODULE MCDocPaths -----------------------------
(***************************************************************************)
(* Handles to document paths, and the memory behind them.                  *)
(*                                                                         *)
(* Abstractly a handle is a sequence of segments (DocPaths).  Concretely   *)
(* it is a slice: an array, of which it sees the first so many cells.      *)
(* Paths are extended like Go's append does it: in place where the array   *)
(* has room behind the slice, unless the capacity of the slice is limited  *)
(* first (COPY, as the library does), which makes it copy.  A search has   *)
(* a path of its own, which it extends and pops, and which it hands to its *)
(* callback; the callback keeps and derives paths.                         *)
(*   Kept    every handle still sees its abstract path (for ever, as       *)
(*           abstract paths never change)                                  *)
(*   Current the search's own path is the address of the node it is at     *)
(* Without COPY both of them fail: cfg MCDocPathsShared.                   *)
(* Behaviours are lists of operations and the paths they make.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Render, DocPaths

CONSTANT COPY
Ops == CASE IOEnv.SIZE = "1" -> 4 [] IOEnv.SIZE = "2" -> 5 [] OTHER -> 6
Cap == 8

\* mem: arrays of cells; kept: the handles, as slices; abs: as sequences;
\* src: the paths that the search still has to report; own: its slice
VARIABLES mem, kept, abs, ops, src, own, ownAbs
vars == <<mem, kept, abs, ops, src, own, ownAbs>>

Slice(a, n) == [arr |-> a, len |-> n]
View(m, s) == SubSeq(m[s.arr], 1, s.len)
None0 == <<>>
Pad(p) == p \o [i \in 1..(Cap - Len(p)) |-> Seg(0, 0, <<>>, 0)]

\* append of a segment to slice s: the new memory and slice
Extend(m, s, g) ==
  IF ~COPY /\ s.len < Cap
  THEN [mem |-> [m EXCEPT ![s.arr][s.len + 1] = g], s |-> Slice(s.arr, s.len + 1)]
  ELSE [mem |-> Append(m, Pad(Append(View(m, s), g))), s |-> Slice(Len(m) + 1, s.len + 1)]

\* --- the paths of a small document, in the order of $..*
D == Numbered(Obj(<<"a", "b">>, <<Arr(<<NulV, IntV(1)>>), NulV>>))
TypeNo(n) == CASE n.k = "obj" -> 1 [] n.k = "arr" -> 2 [] OTHER -> 0
RECURSIVE SegsAlong(_, _, _)
SegsAlong(n, p, acc) ==
  IF p = <<>> THEN acc
  ELSE LET c == n.vs[p[1]]
       IN SegsAlong(c, Tail(p), Append(acc, Seg(c.id, TypeNo(c), IF n.k = "obj" THEN n.ks[p[1]] ELSE <<>>,
                                                IF n.k = "arr" THEN p[1] - 1 ELSE 0)))
RootSeg == Seg(D.id, TypeNo(D), <<>>, 0)
Everything == ParsePath(T("$..*")).path
Reported == Map(LAMBDA p : SegsAlong(D, p, <<RootSeg>>), Paths(Select(D, Everything)))

Init ==
  /\ mem = <<Pad(<<>>)>>
  /\ kept = <<Slice(1, 0)>>
  /\ abs = <<<<>>>>
  /\ ops = <<>>
  /\ src \in {<<>>, Reported}
  /\ own = Slice(1, 0)
  /\ ownAbs = <<>>

Room == Len(ops) < Ops
Keep(op, m, s, p) ==
  /\ mem' = m
  /\ kept' = Append(kept, s)
  /\ abs' = Append(abs, p)
  /\ ops' = Append(ops, op)
Derive(op, h, g) ==
  LET x == Extend(mem, kept[h], g)
  IN Keep(op, x.mem, x.s, Append(abs[h], g)) /\ UNCHANGED <<src, own, ownAbs>>

Big == Ops > 4
KeyOf(h) == \E nm \in {T("a")} \cup (IF Big THEN {} ELSE {T("b")}) : LET g == Seg(Len(ops) + 50, 0, nm, 0)
            IN Derive([o |-> "key", h |-> h, s |-> g], h, g)
IndexOf(h) == LET g == Seg(Len(ops) + 50, 0, <<>>, Len(ops)) IN Derive([o |-> "index", h |-> h, s |-> g], h, g)
PushOf(h) == LET g == Seg(Len(ops) + 50, 2, T("p"), 7) IN Derive([o |-> "push", h |-> h, s |-> g], h, g)
PopOf(h) == /\ abs[h] # <<>>
            /\ Keep([o |-> "pop", h |-> h], mem, Slice(kept[h].arr, kept[h].len - 1), PPop(abs[h]))
            /\ UNCHANGED <<src, own, ownAbs>>

\* The search moves from the path that it reported to the next one: up to
\* what they have in common, and down
Common(p, q) == CHOOSE n \in 0..Len(p) :
                  /\ n <= Len(q) /\ SubSeq(p, 1, n) = SubSeq(q, 1, n)
                  /\ n = Len(p) \/ n = Len(q) \/ p[n + 1] # q[n + 1]
RECURSIVE Down(_, _, _)
Down(m, s, gs) == IF gs = <<>> THEN [mem |-> m, s |-> s]
                  ELSE LET x == Extend(m, s, gs[1]) IN Down(x.mem, x.s, Tail(gs))
Deliver ==
  /\ src # <<>>
  /\ LET q == src[1]
         n == Common(ownAbs, q)
         x == Down(mem, Slice(own.arr, n), SubSeq(q, n + 1, Len(q)))
     IN /\ Keep([o |-> "deliver", h |-> 0], x.mem, x.s, q)
        /\ own' = x.s /\ ownAbs' = q
  /\ src' = Tail(src)

\* (what does not concern the newest handles only is enough in small ones)
Next == /\ Room
        /\ Deliver \/ \E h \in 1..Len(kept) : KeyOf(h) \/ IndexOf(h) \/ PushOf(h) \/ PopOf(h)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Kept == \A h \in 1..Len(kept) : View(mem, kept[h]) = abs[h]
Current == View(mem, own) = ownAbs
\* deriving and popping are inverse
Undone == \A i \in 1..Len(ops) : ops[i].o \in {"key", "index", "push"} =>
             /\ PPop(abs[i + 1]) = abs[ops[i].h]
             /\ PLast(abs[i + 1]) = ops[i].s
             /\ Len(abs[i + 1]) = Len(abs[ops[i].h]) + 1
Forever == [][\A h \in 1..Len(abs) : abs'[h] = abs[h]]_vars
\* handle i + 1 is the result of operation i
Printed == ~Room \/ (src = <<>> /\ ops # <<>> /\ ops[Len(ops)].o = "deliver") =>
             PrintT(ToJson([d |-> D, t |-> T("$..*"), ops |-> ops, r |-> abs]))
=============================================================================
