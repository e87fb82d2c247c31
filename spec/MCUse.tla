------------------------------- MODULE MCUse -------------------------------
(***************************************************************************)
(* Searches that use the same compiled paths and documents at the same     *)
(* time: any number of them are going on, and any of them makes the next   *)
(* step (that is what goroutines do, and what a search from inside a       *)
(* callback does).                                                         *)
(*                                                                         *)
(* Compiled paths and documents are constants: nothing that a search does  *)
(* is kept in them.  Every search has a scope of its own, which has the    *)
(* root that $ denotes in filters.  (With SHARED the scope belongs to the  *)
(* compiled path: cfg MCUseShared, in which Alone fails.)                  *)
(*   Alone      what a search has reported, and what it still has to do,   *)
(*              is what it reports when it is alone                        *)
(*   Apart      (action property) a step changes one search                *)
(*   Repeated   searches of the same path on the same document report the  *)
(*              same                                                       *)
(* GRAIN=fine has all interleavings of single steps (select the children   *)
(* of a node, descend, report); with GRAIN=coarse a step goes on to the    *)
(* next report or to the end of the search, and every schedule of such     *)
(* steps is printed, to be replayed.  A callback may give its search up    *)
(* (it panics, -q in the schedule): nobody else notices.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Render, Pools

CONSTANT SHARED
Procs == 1..(IF IOEnv.PROCS = "3" THEN 3 ELSE 2)
Fine == IOEnv.GRAIN = "fine"
Rich == IOEnv.SIZE # "1"

Ds == <<Numbered(Obj(<<"a", "b">>, <<IntV(1), Arr(<<IntV(1), Obj(<<"a">>, <<IntV(2)>>)>>)>>)),
        Numbered(Arr(<<IntV(2), Arr(<<IntV(2), Obj(<<"a">>, <<IntV(2)>>)>>)>>)),
        Numbered(Obj(<<"a", "b">>, <<IntV(2), Arr(<<IntV(2), IntV(1)>>)>>))>>
Eq(x, y) == Bin("==", x, y)
Kid1 == EP(FALSE, <<Step1(I(-1))>>)
PathPool ==
  {Path(TRUE, <<Step1(F(Eq(At0, RootK("a"))))>>),
   Path(TRUE, <<Step1(K("b")), Step1(F(Eq(At0, RootK("a"))))>>),
   Path(TRUE, <<Step1(W)>>)}
  \cup (IF Cardinality(Procs) = 3 /\ ~Rich THEN {} ELSE
  {Path(TRUE, <<Rec1(K("a"))>>),
   Path(TRUE, <<Step1(F(EP(FALSE, <<Step1(F(Eq(AtK("a"), Lit(IntV(2)))))>>)))>>),
   Path(TRUE, <<Step1(W), Step1(SL(None, None, N(-1)))>>)})
  \cup (IF ~Rich THEN {} ELSE
  {Path(TRUE, <<Rec1(W)>>),
   Path(TRUE, <<Step(FALSE, <<K("b"), I(0), F(Eq(At0, RootK("a")))>>)>>),
   Path(TRUE, <<Rec1(F(Eq(Kid1, EP(TRUE, <<Rec1(K("a"))>>))))>>),
   Path(TRUE, <<Step1(F([x |-> "call", nm |-> LENGTH, args |-> <<At0>>]))>>),
   Path(TRUE, <<>>), Path(TRUE, <<Step1(K("z"))>>)})

VARIABLES px, dx, run, scope, sc
vars == <<px, dx, run, scope, sc>>

Task(it, i) == [it |-> it, i |-> i]
\* whose scope a search uses: its own, or that of its path
ScopeOf(q) == IF SHARED THEN CHOOSE r \in Procs : px[r] = px[q] /\ \A s \in Procs : px[s] = px[q] => r <= s ELSE q

Idle == [st |-> "new", ag |-> <<>>, out |-> <<>>]
Item0(d) == [n |-> Ds[d], p |-> <<>>]
\* (in two steps, so that TLC's workers share the initial states)
Init == /\ px = [q \in Procs |-> Path(TRUE, <<>>)]
        /\ dx \in [Procs -> 1..Len(Ds)]
        /\ run = [q \in Procs |-> [Idle EXCEPT !.st = "none"]]
        /\ scope = [q \in Procs |-> 0]
        /\ sc = <<>>
Choose0 == /\ run[1].st = "none"
           /\ px' \in [Procs -> PathPool]
           /\ run' = [q \in Procs |-> Idle]
           /\ UNCHANGED <<dx, scope, sc>>

\* one small step of search q in state r, with root R in its scope
Micro(q, r, R) ==
  IF r.st = "new" THEN [r EXCEPT !.st = "on", !.ag = <<Task(Item0(dx[q]), 1)>>]
  ELSE IF r.ag = <<>> THEN [r EXCEPT !.st = "end"]
  ELSE LET t == Head(r.ag)
           rest == Tail(r.ag)
           steps == px[q].steps
       IN IF t.i > Len(steps) THEN [r EXCEPT !.ag = rest, !.out = Append(@, t.it.p)]
          ELSE LET x == StepPos(steps[t.i], R, t.it.n)
               IN IF ~steps[t.i].rec
                  THEN [r EXCEPT !.ag = Map(LAMBDA j : Task(Kid(t.it, j), t.i + 1), x.s) \o rest]
                  ELSE [r EXCEPT !.ag = Cat(MapN(LAMBDA j : (IF j \in SeqSet(x.s) THEN <<Task(Kid(t.it, j), t.i + 1)>> ELSE <<>>)
                                                            \o <<Task(Kid(t.it, j), t.i)>>, Len(Kids(t.it.n)))) \o rest]
\* go on to the next report or to the end
RECURSIVE Macro(_, _, _)
Macro(q, r, R) ==
  LET s == Micro(q, r, R)
  IN IF s.st = "end" \/ Len(s.out) > Len(r.out) THEN s ELSE Macro(q, s, R)

Running == run[1].st # "none"
StepOf(q) ==
  /\ Running
  /\ run[q].st \notin {"end", "gone"}
  /\ scope' = IF run[q].st = "new" THEN [scope EXCEPT ![ScopeOf(q)] = dx[q]] ELSE scope
  /\ run' = [run EXCEPT ![q] = IF Fine THEN Micro(q, @, Ds[scope'[ScopeOf(q)]]) ELSE Macro(q, @, Ds[scope'[ScopeOf(q)]])]
  /\ sc' = IF Fine THEN sc ELSE Append(sc, q)
  /\ UNCHANGED <<px, dx>>
\* the callback of a search that has reported something gives it up
Abandon(q) ==
  /\ Running
  /\ run[q].st = "on" /\ run[q].out # <<>>
  /\ run' = [run EXCEPT ![q].st = "gone", ![q].ag = <<>>]
  /\ sc' = IF Fine THEN sc ELSE Append(sc, -q)
  /\ UNCHANGED <<px, dx, scope>>
Next == Choose0 \/ (\E q \in Procs : StepOf(q)) \/ Abandon(1)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Selected(q) == Paths(Select(Ds[dx[q]], px[q]))
Alone == Running => \A q \in Procs :
           IF run[q].st = "gone" THEN IsPrefix(run[q].out, Selected(q))
           ELSE run[q].st # "new" =>
           run[q].out \o Cat(Map(LAMBDA t : Paths(Walk(Ds[dx[q]], t.it, px[q].steps, t.i)), run[q].ag)) = Selected(q)
Over == Running /\ \A q \in Procs : run[q].st \in {"end", "gone"}
Repeated == \A q, r \in Procs : px[q] = px[r] /\ dx[q] = dx[r] /\ run[q].st = "end" /\ run[r].st = "end" => run[q].out = run[r].out
Apart == [][Running => \E q \in Procs : \A r \in Procs \ {q} : run'[r] = run[r]]_vars

Behaviour == [ds |-> Ds, dx |-> MapN(LAMBDA q : dx[q], Cardinality(Procs)),
              ts |-> MapN(LAMBDA q : Show(px[q], "dot"), Cardinality(Procs)), sc |-> sc,
              r |-> MapN(LAMBDA q : run[q].out, Cardinality(Procs))]
Printed == Over /\ ~Fine => PrintT(ToJson(Behaviour))
=============================================================================
