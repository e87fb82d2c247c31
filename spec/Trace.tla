------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions: which of the recorded calls are      *)
(* behaviours of the specification.                                        *)
(*                                                                         *)
(* A session is a record of calls on the real library:                     *)
(*   docs, texts   the documents (as sequences of their nodes, see Tree)   *)
(*                 and path texts used                                     *)
(*   calls         the text t applied to the document d, with the distinct *)
(*                 outcomes of the ways of doing so, outs: err (refused),  *)
(*                 pan (panicked), ids (the nodes reported, in order, as   *)
(*                 identities), bag (the document model has no member      *)
(*                 order), broke (how the library left the contract of the *)
(*                 document model, if it did), and for some of them segs,  *)
(*                 the reported paths; ns: the text is the library's own,  *)
(*                 made of these names                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Eval, Agree

Sessions == ndJsonDeserialize(IOEnv.TRACE)
\* "contract": the property also covers the contract of document models;
\* "total": the property is only that every call returns
Contract == IOEnv.MODE = "contract"
Total == IOEnv.MODE = "total"
\* what the specification leaves open has to agree, too (see Agree)
Agreeing == "AGREE" \in DOMAIN IOEnv /\ IOEnv.AGREE = "1"

VARIABLES ses, done

Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
BagEq(a, b) == Len(a) = Len(b) /\ Sorted(a) = Sorted(b)

TypeNo(n) == CASE n.k = "obj" -> 1 [] n.k = "arr" -> 2 [] OTHER -> 0

\* The segments of the path that leads from R along positions p
RECURSIVE SegsOf(_, _, _, _)
SegsOf(n, p, i, acc) ==
  IF i > Len(p) THEN acc
  ELSE LET k == n.vs[p[i]]
       IN SegsOf(k, p, i + 1,
            Append(acc, [id |-> k.id, ty |-> TypeNo(k),
                         nm |-> IF n.k = "obj" THEN n.ks[p[i]] ELSE <<>>,
                         ix |-> IF n.k = "arr" THEN p[i] - 1 ELSE 0]))
WantSegs(R, w) ==
  [i \in 1..Len(w.r) |->
     SegsOf(R, w.r[i].p, 1, <<[id |-> R.id, ty |-> TypeNo(R), nm |-> <<>>, ix |-> 0]>>)]

\* the verdict on one outcome, given the parsed text and the selection
Verdict(o, p, w, want, R) ==
  IF o.pan THEN <<"R", "panic">>
  ELSE IF Total THEN <<"A">>
  ELSE IF Contract /\ o.broke # "" THEN <<"R", "contract">>
  ELSE IF p.st = "unspec" THEN <<"U">>
  ELSE IF p.st = "rej" THEN IF o.err THEN <<"A">> ELSE <<"R", "must be refused">>
  ELSE IF o.err THEN <<"R", "must be accepted">>
  ELSE IF w.b THEN <<"U">>
  ELSE IF ~(IF o.bag THEN BagEq(o.ids, want) ELSE o.ids = want) THEN <<"R", want>>
  ELSE IF "segs" \in DOMAIN o /\ o.segs # WantSegs(R, w) THEN <<"R", WantSegs(R, w)>>
  ELSE <<"A">>

\* a text that the library made of names is a path to the member with them
Addressed(ns) == [st |-> "ok", path |-> [abs |-> TRUE,
                    steps |-> Map(LAMBDA n : Step(FALSE, <<KeyPart(n, PosOfText(n))>>), ns)]]

CallVerdicts(c, parsed, docs) ==
  LET p == IF "ns" \in DOMAIN c THEN Addressed(c.ns) ELSE parsed[c.t]
      w == IF p.st = "ok" THEN Select(docs[c.d], p.path) ELSE NoItems
      want == Ids(w)
  IN Map(LAMBDA o : Verdict(o, p, w, want, docs[c.d]), c.outs)

\* A call that selects something, or a refused text
Telling(c) == \E k \in 1..Len(c.outs) : c.outs[k].err \/ c.outs[k].ids # <<>>

\* A document is recorded as its nodes; cs[j] is the identity of child j
RECURSIVE Tree(_, _)
Tree(ns, i) ==
  LET n == ns[i]
      vs == Map(LAMBDA j : Tree(ns, j), n.cs)
  IN CASE n.k = "obj" -> [id |-> i, k |-> n.k, ks |-> n.ks, vs |-> vs]
       [] n.k = "arr" -> [id |-> i, k |-> n.k, vs |-> vs]
       [] OTHER -> n

Judge(i) ==
  LET s == Sessions[i]
      docs == Map(LAMBDA d : Tree(d, 1), s.docs)
      parsed == Map(ParsePath, s.texts)
      v == Map(LAMBDA c : CallVerdicts(c, parsed, docs), s.calls)
      count(x) == FoldLeft(LAMBDA a, vs : a + Cardinality({k \in 1..Len(vs) : vs[k][1] = x}), 0, v)
      telling == Cardinality({c \in 1..Len(s.calls) : Telling(s.calls[c])})
      Open(c) == v[c] # <<>> /\ v[c][1][1] = "U"
      opens == IF Agreeing THEN {c \in 1..Len(v) : Open(c)} ELSE {}
      known == {c \in opens : LET p == parsed[s.calls[c].t] IN p.st = "ok" /\ Known(p.path)}
      values == MapN(LAMBDA c : IF c \in known THEN ValuedPath(parsed[s.calls[c].t].path, docs[s.calls[c].d]) ELSE <<>>, Len(v))
      pairs == {x \in known \X known : /\ x[1] < x[2] /\ s.calls[x[1]].d = s.calls[x[2]].d
                                       /\ Alike(values[x[1]], values[x[2]])}
      told(c) == Told(s.calls[c].outs[1])
  IN /\ \A c \in opens : ~OneOf(s.calls[c].outs) =>
          PrintT(ToJson(<<"R", s.id, c, 1, "the same from all document models and calls">>))
     /\ \A x \in pairs : told(x[1]) # told(x[2]) =>
          PrintT(ToJson(<<"R", s.id, x[2], 1, "the same as for a text with the same meaning", s.texts[s.calls[x[1]].t], told(x[1])[3]>>))
     /\ PrintT(ToJson(<<"agree", s.id, Cardinality(opens), Cardinality(pairs)>>))
     /\ \A c \in 1..Len(v) : \A k \in 1..Len(v[c]) :
          v[c][k][1] = "R" => PrintT(ToJson(<<"R", s.id, c, k, v[c][k][2]>>))
     /\ PrintT(ToJson(<<"S", s.id, count("A"), count("U"), count("R"), telling>>))

\* Every session is judged on its own, by any worker
Init == ses \in 1..Len(Sessions) /\ done = FALSE
\* ("= TRUE" makes TLC evaluate an expression, with its caching, and not an action)
Next == ~done /\ Judge(ses) = TRUE /\ done' = TRUE /\ UNCHANGED ses
Spec == Init /\ [][Next]_<<ses, done>>
============================================================================
