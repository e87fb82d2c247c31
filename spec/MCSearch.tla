------------------------------ MODULE MCSearch ------------------------------
(***************************************************************************)
(* The search as a state machine, structured like the library's search:    *)
(* one step selects the children of a node, or descends into one, or       *)
(* reports a match.  TLC explores it for all paths and documents of a      *)
(* small scope.  Checked in every state:                                   *)
(*   Remainder   what has been reported, followed by what the pending      *)
(*               tasks denote, is the selection denoted by the path        *)
(*   Counts      (at the end) every node is reported once for every way    *)
(*               in which the steps of the path lead to it, where "lead"   *)
(*               is defined by addresses and without any search            *)
(*   Once        with at most one '..' nothing is reported twice           *)
(*   Document    matches come in document order, unless a slice runs       *)
(*               backwards                                                 *)
(*   Shrinks     (action property) the pending work decreases in every     *)
(*               step, so that every search ends                           *)
(* and the law of the property in focus.  Every behaviour is printed when  *)
(* it ends, and then replayed on the library.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Render, Pools

VARIABLES root, path, style, agenda, out, ended
vars == <<root, path, style, agenda, out, ended>>

Task(it, i) == [it |-> it, i |-> i]

\* (in two steps, so that TLC's workers share the initial states)
Init ==
  /\ root \in {Numbered(d) : d \in Docs}
  /\ path = Path(TRUE, <<>>)
  /\ style = "none"
  /\ agenda = <<>>
  /\ out = <<>>
  /\ ended = FALSE
Start ==
  /\ style = "none"
  /\ path' \in Paths0
  /\ style' \in StylesOf(path')
  /\ agenda' = <<Task([n |-> root, p |-> <<>>], 1)>>
  /\ UNCHANGED <<root, out, ended>>

Head1 == Head(agenda)
Started == style # "none"
Busy == Started /\ ~ended /\ agenda # <<>>

\* the head task has no steps left: its node matches
Report ==
  /\ Busy
  /\ Head1.i > Len(path.steps)
  /\ out' = Append(out, Head1.it.p)
  /\ agenda' = Tail(agenda)
  /\ UNCHANGED <<root, path, style, ended>>

\* continue with the children that a step selects
Choose ==
  /\ Busy
  /\ Head1.i <= Len(path.steps)
  /\ ~path.steps[Head1.i].rec
  /\ LET x == StepPos(path.steps[Head1.i], root, Head1.it.n)
     IN agenda' = Map(LAMBDA j : Task(Kid(Head1.it, j), Head1.i + 1), x.s) \o Tail(agenda)
  /\ UNCHANGED <<root, path, style, out, ended>>

\* '..': every child, if the step selects it, and then its descendants
Down ==
  /\ Busy
  /\ Head1.i <= Len(path.steps)
  /\ path.steps[Head1.i].rec
  /\ LET x == SeqSet(StepPos(path.steps[Head1.i], root, Head1.it.n).s)
         kid(j) == Kid(Head1.it, j)
         for(j) == (IF j \in x THEN <<Task(kid(j), Head1.i + 1)>> ELSE <<>>)
                   \o <<Task(kid(j), Head1.i)>>
     IN agenda' = Cat(MapN(for, Len(Kids(Head1.it.n)))) \o Tail(agenda)
  /\ UNCHANGED <<root, path, style, out, ended>>

Behaviour == [d |-> root, t |-> Show(path, style), p |-> out]
End ==
  /\ Started
  /\ ~ended
  /\ agenda = <<>>
  /\ ended' = TRUE
  /\ UNCHANGED <<root, path, style, agenda, out>>

\* (an invariant, so that TLC prints each behaviour once)
Printed == ended => PrintT(ToJson(Behaviour))

Next == Start \/ Report \/ Choose \/ Down \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------

Denoted == Paths(Select(root, path))
Remainder == Started => LET w == Map(LAMBDA t : Walk(root, t.it, path.steps, t.i), agenda)
             IN out \o Cat(Map(Paths, w)) = Denoted

\* the text says the path
RoundTrip == LET q == ParsePath(Show(path, style))
             IN agenda # <<>> /\ out = <<>> => q.st = "ok" /\ q.path = path

\* --- addresses: sequences of child positions
RECURSIVE Addresses(_)
Addresses(n) == {<<>>} \cup UNION {{<<j>> \o a : a \in Addresses(n.vs[j])} : j \in 1..Len(Kids(n))}
RECURSIVE NodeAt(_, _)
NodeAt(n, a) == IF a = <<>> THEN n ELSE NodeAt(n.vs[a[1]], Tail(a))
\* the child at the end of address a is one that the step st selects
Selected(st, a) == LET m == NodeAt(root, SubSeq(a, 1, Len(a) - 1))
                   IN a[Len(a)] \in SeqSet(StepPos(st, root, m).s)
\* the increasing sequences of lengths of prefixes of a, one for each step:
\* the step i selects the prefix of length m[i]; without '..' it is the next
Ways(a) ==
  LET n == Len(path.steps)
  IN {m \in [1..n -> 1..Len(a)] :
        /\ n = 0 => a = <<>>
        /\ n > 0 => m[n] = Len(a)
        /\ \A i \in 1..n :
             LET from == IF i = 1 THEN 0 ELSE m[i - 1]
             IN /\ IF path.steps[i].rec THEN m[i] > from ELSE m[i] = from + 1
                /\ Selected(path.steps[i], SubSeq(a, 1, m[i]))}
Occurs(a) == Cardinality({i \in 1..Len(out) : out[i] = a})
Counts == Started /\ agenda = <<>> => \A a \in Addresses(root) :
            Occurs(a) = IF path.steps = <<>> THEN (IF a = <<>> THEN 1 ELSE 0)
                        ELSE IF a = <<>> THEN 0
                        ELSE Cardinality(Ways(a))
Within == \A i \in 1..Len(out) : out[i] \in Addresses(root)

Descents == Cardinality({i \in 1..Len(path.steps) : path.steps[i].rec})
Once == Descents <= 1 => \A i, j \in 1..Len(out) : i # j => out[i] # out[j]

Backwards(p) == p.p = "slice" /\ p.c # None
HasBackwards == \E i \in 1..Len(path.steps) : \E j \in 1..Len(path.steps[i].parts) : Backwards(path.steps[i].parts[j])
Document == (Descents <= 1 /\ ~HasBackwards) => \A i \in 1..(Len(out) - 1) : SeqCmp(out[i], out[i + 1]) < 0

\* the size of the pending work: a task is worth more than all that follows from it
RECURSIVE Work(_)
Work(t) == LET it == t.it
           IN IF t.i > Len(path.steps) THEN 1
              ELSE IF ~path.steps[t.i].rec
              THEN 1 + FoldLeft(LAMBDA a, j : a + Work(Task(Kid(it, j), t.i + 1)), 0, Iota(Len(Kids(it.n))))
              ELSE 1 + FoldLeft(LAMBDA a, j : a + Work(Task(Kid(it, j), t.i + 1)) + Work(Task(Kid(it, j), t.i)),
                                0, Iota(Len(Kids(it.n))))
Total(ag) == FoldLeft(LAMBDA a, t : a + Work(t), 0, ag)
Shrinks == [][Started /\ agenda' # agenda => Total(agenda') < Total(agenda)]_vars
Ends == <>ended

\* --- laws of the properties in focus
LawAt(st, n) ==
  CASE Focus = "C03" -> \* -k is the k-th element from the end, and never anything else
         \A j \in 1..Len(st.parts) :
           LET q == st.parts[j]
               sel == PartPos(q, root, n).s
           IN IsPosition(q) /\ n.k = "arr" =>
                LET i == Clamp(q.ix)
                IN sel = IF i < 0 THEN (IF Len(n.vs) >= -i THEN <<Len(n.vs) + i + 1>> ELSE <<>>)
                         ELSE IF i < Len(n.vs) THEN <<i + 1>> ELSE <<>>
    [] Focus = "C04" -> \* Python's slices, by the definition with sets of positions
         \A j \in 1..Len(st.parts) :
           LET q == st.parts[j]
               sel == PartPos(q, root, n).s
               int(x) == Clamp(ToNum(Ev(x, root, n)))
               none(x) == IF x = None THEN FALSE ELSE ToNum(Ev(x, root, n)).k = "nan"
               c == IF q.c = None THEN 1 ELSE int(q.c)
               L == Len(Kids(n))
               norm(x) == LET v == IF int(x) < 0 THEN int(x) + L ELSE int(x)
                          IN IF c > 0 THEN MinI(MaxI(v, 0), L) ELSE MinI(MaxI(v, -1), L - 1)
               a == IF q.a = None THEN (IF c > 0 THEN 0 ELSE L - 1) ELSE norm(q.a)
               b == IF q.b = None THEN (IF c > 0 THEN L ELSE -1) ELSE norm(q.b)
               d == IF c > 0 THEN c ELSE -c
               want == {k \in 0..(L - 1) :
                          /\ IF c > 0 THEN a <= k /\ k < b ELSE b < k /\ k <= a
                          /\ (IF c > 0 THEN k - a ELSE a - k) % d = 0}
           IN q.p = "slice" =>
                IF n.k # "arr" \/ none(q.a) \/ none(q.b) \/ none(q.c) \/ c = 0 THEN sel = <<>>
                ELSE /\ SeqSet(sel) = {k + 1 : k \in want}
                     /\ Len(sel) = Cardinality(want)
                     /\ \A i \in 1..(Len(sel) - 1) : IF c > 0 THEN sel[i] < sel[i + 1] ELSE sel[i] > sel[i + 1]
    [] Focus = "C05" -> \* a union selects what its parts select
         /\ SeqSet(StepPos(st, root, n).s) = UNION {SeqSet(PartPos(st.parts[j], root, n).s) : j \in 1..Len(st.parts)}
         /\ Distinct(StepPos(st, root, n).s)
    [] Focus \in {"C06", "C07"} ->
         \A j \in 1..Len(st.parts) :
           LET q == st.parts[j] IN
           q.p = "filter" => SeqSet(PartPos(q, root, n).s) =
                               {i \in 1..Len(Kids(n)) : Truth(Ev(q.x, root, n.vs[i])) # 0}
    [] OTHER -> TRUE
Law == \A t \in {agenda[i] : i \in 1..Len(agenda)} :
         t.i <= Len(path.steps) => LawAt(path.steps[t.i], t.it.n)
=============================================================================
