------------------------------ MODULE TraceHist ------------------------------
(***************************************************************************)
(* Validation of recorded histories: sequences of operations on document   *)
(* paths (C15), on path builders (C23), and of searches that run at the    *)
(* same time (C24).  Every event of a session is one step.                 *)
(*                                                                         *)
(* Events (o) and their fields:                                            *)
(*  document paths; each makes the next path handle                        *)
(*   new                  the empty path                                   *)
(*   key, index, push     handle h, segment s                              *)
(*   pop                  handle h                                         *)
(*   deliver              search q reports a path, r its segments          *)
(*  observations                                                           *)
(*   last   (h, s: its last segment)   len (h, n)   look (h, r: segments)  *)
(*   doc    the documents are (same) what they were                        *)
(*  searches, numbered from 1                                              *)
(*   start  q, text t or built path p, document d; bag: no member order    *)
(*   end    q; err        gone  q: its callback gave it up by a panic      *)
(*  built paths; each makes the next built path                            *)
(*   root cur wild empty  keysel (nm)  indexsel (nm: as text, ix: number)  *)
(*   parse (t)  rec (h)  append (hs)                                       *)
(*   find   h, d, ids, err, bag                                            *)
(* Any of them may have pan: it panicked.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Builders, DocPaths

Sessions == ndJsonDeserialize(IOEnv.TRACE)

\* at: the last event; dps: document paths; bps: built paths; runs: what
\* the searches still have to report; first: what open searches gave first
VARIABLES ses, at, docs, dps, bps, runs, first, cnt, rejected
vars == <<ses, at, docs, dps, bps, runs, first, cnt, rejected>>

TypeNo(n) == CASE n.k = "obj" -> 1 [] n.k = "arr" -> 2 [] OTHER -> 0
RECURSIVE SegsAlong(_, _, _, _)
SegsAlong(n, p, i, acc) ==
  IF i > Len(p) THEN acc
  ELSE LET c == n.vs[p[i]]
       IN SegsAlong(c, p, i + 1,
            Append(acc, Seg(c.id, TypeNo(c), IF n.k = "obj" THEN n.ks[p[i]] ELSE <<>>,
                            IF n.k = "arr" THEN p[i] - 1 ELSE 0)))
Reported(R, w) == Map(LAMBDA x : SegsAlong(R, x.p, 1, <<Seg(R.id, TypeNo(R), <<>>, 0)>>), w.r)

RECURSIVE Tree(_, _)
Tree(ns, i) ==
  LET n == ns[i]
      vs == Map(LAMBDA j : Tree(ns, j), n.cs)
  IN CASE n.k = "obj" -> [id |-> i, k |-> n.k, ks |-> n.ks, vs |-> vs]
       [] n.k = "arr" -> [id |-> i, k |-> n.k, vs |-> vs]
       [] OTHER -> n

Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
SameIds(a, b, bag) == IF bag THEN Len(a) = Len(b) /\ Sorted(a) = Sorted(b) ELSE a = b
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Events == Sessions[ses].ev
Texts == Sessions[ses].texts
Now == Events[at + 1]

\* what a search of e has to report: its parsed path
PathOf(e) == IF e.t > 0 THEN ParsePath(Texts[e.t])
             ELSE IF bps[e.h].open \/ ~Meaningful(bps[e.h].l) THEN [st |-> "unspec"]
             ELSE [st |-> "ok", path |-> Meaning(bps[e.h].l)]

OpenB == [open |-> TRUE, l |-> <<>>]
B(l) == [open |-> FALSE, l |-> l]
\* the built path that e makes
Built(e) ==
  CASE e.o = "root" -> B(BRoot)
    [] e.o = "cur" -> B(BCurrent)
    [] e.o = "wild" -> B(BWild)
    [] e.o = "empty" -> B(BEmpty)
    [] e.o = "keysel" -> B(BKey(e.nm))
    [] e.o = "indexsel" -> B(BIndex(e.nm, PosOfText(e.nm)))
    [] e.o = "parse" -> LET p == ParsePath(Texts[e.t])
                        IN IF p.st = "ok" THEN B(BParsed(p.path)) ELSE OpenB
    [] e.o = "rec" -> [open |-> bps[e.h].open, l |-> BRec(bps[e.h].l)]
    [] e.o = "append" -> [open |-> \E i \in 1..Len(e.hs) : bps[e.hs[i]].open,
                          l |-> BAppend(Map(LAMBDA h : bps[h].l, e.hs))]
Builders0 == {"root", "cur", "wild", "empty", "keysel", "indexsel", "parse", "rec", "append"}
Derivations == {"new", "key", "index", "push", "pop"}

\* the document path that e makes
Derived(e) ==
  CASE e.o = "new" -> <<>>
    [] e.o = "key" -> PKey(dps[e.h], e.s.nm, e.s.id, e.s.ty)
    [] e.o = "index" -> PIndex(dps[e.h], e.s.ix, e.s.id, e.s.ty)
    [] e.o = "push" -> PPush(dps[e.h], e.s)
    [] e.o = "pop" -> PPop(dps[e.h])

---------------------------------------------------------------------------
\* Steps. Each of them says whether the event is accepted ("A"), cannot
\* be decided ("U"), or the reason for rejecting it

Accept(x, why) == /\ cnt' = IF x = "A" THEN [cnt EXCEPT !.a = @ + 1] ELSE IF x = "U" THEN [cnt EXCEPT !.u = @ + 1] ELSE cnt
                  /\ IF x = "R" THEN PrintT(ToJson(<<"R", Sessions[ses].id, at + 1, 1, why>>)) /\ rejected' = TRUE
                                ELSE UNCHANGED rejected
OnlyIf(ok, why) == Accept(IF ok THEN "A" ELSE "R", why)

Panicked(e) == /\ e.pan
               /\ Accept("R", "panic")
               /\ UNCHANGED <<dps, bps, runs, first>>
Derive(e) == /\ ~e.pan /\ e.o \in Derivations
             /\ dps' = Append(dps, Derived(e))
             /\ Accept("A", "")
             /\ UNCHANGED <<bps, runs, first>>
Observe(e) == /\ ~e.pan /\ e.o \in {"last", "len", "look", "doc"}
              /\ CASE e.o = "last" -> OnlyIf(e.s = PLast(dps[e.h]), PLast(dps[e.h]))
                   [] e.o = "len" -> OnlyIf(e.n = Len(dps[e.h]), Len(dps[e.h]))
                   [] e.o = "look" -> OnlyIf(e.r = dps[e.h], dps[e.h])
                   [] e.o = "doc" -> OnlyIf(e.same, "the document unchanged")
              /\ UNCHANGED <<dps, bps, runs, first>>
Start(e) == /\ ~e.pan /\ e.o = "start"
            /\ LET p == PathOf(e)
                   R == docs[e.d]
                   w == IF p.st = "ok" THEN Select(R, p.path) ELSE NoItems
                   open == p.st = "unspec" \/ w.b
               IN runs' = Append(runs, [open |-> open, rej |-> p.st = "rej", bag |-> e.bag,
                                        rest |-> IF open \/ p.st = "rej" THEN <<>> ELSE Reported(R, w)])
            /\ Accept("A", "")
            /\ UNCHANGED <<dps, bps, first>>
Deliver(e) == /\ ~e.pan /\ e.o = "deliver"
              /\ LET q == runs[e.q]
                     i == IF q.bag THEN IF \E k \in 1..Len(q.rest) : q.rest[k] = e.r
                                        THEN CHOOSE k \in 1..Len(q.rest) : q.rest[k] = e.r ELSE 0
                          ELSE IF q.rest # <<>> /\ q.rest[1] = e.r THEN 1 ELSE 0
                 IN IF q.open THEN Accept("U", "") /\ UNCHANGED runs
                    ELSE IF i = 0 THEN Accept("R", IF q.rest = <<>> THEN "no more paths" ELSE q.rest[1]) /\ UNCHANGED runs
                    ELSE Accept("A", "") /\ runs' = [runs EXCEPT ![e.q].rest = Without(@, i)]
              /\ dps' = Append(dps, e.r)
              /\ UNCHANGED <<bps, first>>
End(e) == /\ ~e.pan /\ e.o = "end"
          /\ LET q == runs[e.q]
             IN IF q.open THEN Accept("U", "")
                ELSE IF q.rej THEN OnlyIf(e.err, "must be refused")
                ELSE IF e.err THEN Accept("R", "must be accepted")
                ELSE OnlyIf(q.rest = <<>>, q.rest)
          /\ UNCHANGED <<dps, bps, runs, first>>
Gone(e) == /\ ~e.pan /\ e.o = "gone"
           /\ runs' = [runs EXCEPT ![e.q].open = TRUE]
           /\ Accept("A", "")
           /\ UNCHANGED <<dps, bps, first>>
Build(e) == /\ ~e.pan /\ e.o \in Builders0
            /\ bps' = Append(bps, Built(e))
            /\ IF e.o = "parse"
               THEN LET p == ParsePath(Texts[e.t])
                    IN IF p.st = "unspec" THEN Accept("U", "")
                       ELSE OnlyIf(e.err = (p.st = "rej"), IF p.st = "rej" THEN "must be refused" ELSE "must be accepted")
               ELSE Accept("A", "")
            /\ UNCHANGED <<dps, runs, first>>
\* open results must stay what they were
Find(e) == /\ ~e.pan /\ e.o = "find"
           /\ LET p == PathOf([t |-> 0, h |-> e.h])
                  w == IF p.st = "ok" THEN Select(docs[e.d], p.path) ELSE NoItems
                  \* paths of the same elements are the same, however they were built
                  key == IF bps[e.h].open THEN ToString(<<e.h, e.d>>) ELSE ToString(<<bps[e.h].l, e.d>>)
                  got == [ids |-> e.ids, err |-> e.err, bag |-> e.bag]
              IN IF p.st = "ok" /\ ~w.b
                 THEN /\ IF e.err THEN Accept("R", "must be accepted")
                         ELSE OnlyIf(SameIds(e.ids, Ids(w), e.bag), Ids(w))
                      /\ UNCHANGED first
                 ELSE IF key \in DOMAIN first
                 THEN /\ OnlyIf(first[key].err = e.err /\ SameIds(e.ids, first[key].ids, e.bag \/ first[key].bag),
                                <<"what it was", first[key].ids>>)
                      /\ UNCHANGED first
                 ELSE first' = (key :> got) @@ first /\ Accept("U", "")
           /\ UNCHANGED <<dps, bps, runs>>

More == ~rejected /\ at < Len(Events)
Step0 == /\ More
         /\ at' = at + 1
         /\ UNCHANGED <<ses, docs>>
         /\ LET e == Now IN Panicked(e) \/ Derive(e) \/ Observe(e) \/ Start(e) \/ Deliver(e) \/ End(e) \/ Gone(e) \/ Build(e) \/ Find(e)
Finish == /\ ~More /\ at <= Len(Events)
          /\ PrintT(ToJson(<<"S", Sessions[ses].id, cnt.a, cnt.u, IF rejected THEN 1 ELSE 0, cnt.a>>))
          /\ at' = Len(Events) + 1
          /\ UNCHANGED <<ses, docs, dps, bps, runs, first, cnt, rejected>>

Init == /\ ses \in 1..Len(Sessions) /\ at = 0
        /\ docs = Map(LAMBDA d : Tree(d, 1), Sessions[ses].docs)
        /\ dps = <<>> /\ bps = <<>> /\ runs = <<>> /\ first = <<>>
        /\ cnt = [a |-> 0, u |-> 0] /\ rejected = FALSE
Next == Step0 \/ Finish
Spec == Init /\ [][Next]_vars
\* a session has only one history
View == <<ses, at>>
\* the identities of a step: the document paths are never changed
Persistent == [][\A h \in 1..Len(dps) : dps'[h] = dps[h]]_vars
=============================================================================
