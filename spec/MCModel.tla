------------------------------- MODULE MCModel -------------------------------
(***************************************************************************)
(* Conversations with a document model: questions about nodes that earlier *)
(* answers gave.                                                           *)
(*   Faithful   a document can be rebuilt from nothing but the answers     *)
(*   Reached    answers are nodes of the document, and a member is found   *)
(*              if and only if it is listed                                *)
(*   Same       (action property) no question changes the document         *)
(* With LOSSY, members that are null are not found: cfg MCModelLossy, in   *)
(* which Faithful fails.                                                   *)
(* Behaviours are conversations with all their answers.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Render, DocModel

CONSTANT LOSSY
Big == IOEnv.SIZE # "1"
Most == IF Big THEN 4 ELSE 3

\* doc: the document; hs: nodes that were given, the root first; log: the
\* questions and answers; kind: "talk" or "tour" (all questions in order)
VARIABLES doc, hs, log, kind
vars == <<doc, hs, log, kind>>

Find(n, nm) == LET m == MKey(n, nm) IN IF LOSSY /\ m # <<>> /\ m[1].k = "null" THEN <<>> ELSE m

NA == T("a")
NE == <<>>
NN == T("A")
Names == {NA, NE, NN, T("b")}
Smallest == DocsUpTo({NulV, StrV("")}, 1, 2, {NA, NE})
L3 == {NulV, BoV(FALSE), IntV(0), StrV(""), StrV("a")}
TalkDocs == {d \in Smallest : d.k \in {"obj", "arr"}}
            \cup {Obj(<<"a", "b">>, <<Arr(<<NulV, Obj(<<"a">>, <<NulV>>)>>), Obj(<<>>, <<>>)>>),
                  Arr(<<Arr(<<>>), Arr(<<NulV, StrV("a")>>), Obj(<<"">>, <<BoV(FALSE)>>)>>)}
TourDocs == L3 \cup Containing(L3, 2, {NA, NE, NN})
            \cup Arrays(Containing({NulV, IntV(1)}, 1, {NA, NE}), 2)
            \cup (IF Big THEN DocsUpTo({NulV, IntV(0)}, 2, 2, {NA, NN}) ELSE {})

\* --- all questions about a document
Ask(o, h, x, r) == [o |-> o, h |-> h, x |-> x, r |-> r]
\* acc: [hs, log]; h: the handle to ask about
RECURSIVE Tour(_, _)
Tour(h, acc) ==
  LET n == acc.hs[h]
      add(a, o, x, r) == [a EXCEPT !.log = Append(@, Ask(o, h, x, r))]
      give(a, o, x, m) == \* a question that gives a node
        LET b == add(a, o, x, m.id)
            c == [b EXCEPT !.hs = Append(@, m)]
        IN Tour(Len(c.hs), c)
      a1 == add(acc, "type", 0, MType(n))
  IN CASE n.k = "obj" ->
            LET a2 == add(add(a1, "len", 0, MLen(n)), "keys", 0, n.ks)
                a3 == FoldLeft(LAMBDA a, nm : LET m == Find(n, nm)
                                              IN IF m = <<>> THEN add(a, "key", nm, 0) ELSE give(a, "key", nm, m[1]),
                               a2, n.ks)
            IN FoldLeft(LAMBDA a, nm : add(a, "key", nm, 0), a3, SetToSeq(Names \ MNames(n)))
       [] n.k = "arr" ->
            FoldLeft(LAMBDA a, i : give(a, "elem", i - 1, MElem(n, i - 1)), add(a1, "len", 0, MLen(n)),
                     [i \in 1..Len(n.vs) |-> i] \o <<>>)
       [] OTHER -> add(a1, "value", 0, n.id)

Init == /\ log = <<>>
        /\ \/ kind = "talk" /\ doc \in {Numbered(d) : d \in TalkDocs}
           \/ kind = "tour" /\ doc \in {Numbered(d) : d \in TourDocs}
        /\ hs = <<doc>>

Answer(o, h, x, r) == log' = Append(log, Ask(o, h, x, r)) /\ UNCHANGED <<doc, hs, kind>>
Give(o, h, x, m) == log' = Append(log, Ask(o, h, x, m.id)) /\ hs' = Append(hs, m) /\ UNCHANGED <<doc, kind>>
Talk(h) ==
  LET n == hs[h] IN
  \/ Answer("type", h, 0, MType(n))
  \/ n.k \in {"obj", "arr"} /\ Answer("len", h, 0, MLen(n))
  \/ n.k = "obj" /\ Answer("keys", h, 0, n.ks)
  \/ n.k = "obj" /\ \E nm \in Names : IF Find(n, nm) = <<>> THEN Answer("key", h, nm, 0)
                                                            ELSE Give("key", h, nm, Find(n, nm)[1])
  \/ n.k = "arr" /\ \E i \in 1..Len(n.vs) : Give("elem", h, i - 1, MElem(n, i - 1))
  \/ n.k \notin {"obj", "arr"} /\ Answer("value", h, 0, n.id)
Next == \/ kind = "talk" /\ Len(log) < Most /\ \E h \in 1..Len(hs) : Talk(h)
        \/ /\ kind = "tour" /\ log = <<>>
           /\ LET t == Tour(1, [hs |-> hs, log |-> <<>>]) IN hs' = t.hs /\ log' = t.log
           /\ UNCHANGED <<doc, kind>>
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
RECURSIVE Rebuilt(_)
Rebuilt(n) ==
  CASE MType(n) = ObjectNode ->
         [k |-> "obj", m |-> [nm \in MNames(n) |-> LET c == Find(n, nm)
                                                   IN IF c = <<>> THEN [k |-> "lost"] ELSE Rebuilt(c[1])]]
    [] MType(n) = ArrayNode -> [k |-> "arr", m |-> [i \in 0..MLen(n) - 1 |-> Rebuilt(MElem(n, i))]]
    [] OTHER -> MValue(n)
RECURSIVE Shape(_)
Shape(n) ==
  CASE n.k = "obj" -> [k |-> "obj", m |-> [nm \in {n.ks[i] : i \in 1..Len(n.ks)} |->
                                             Shape(n.vs[CHOOSE i \in 1..Len(n.ks) : n.ks[i] = nm])]]
    [] n.k = "arr" -> [k |-> "arr", m |-> [i \in 0..Len(n.vs) - 1 |-> Shape(n.vs[i + 1])]]
    [] OTHER -> n
Faithful == Rebuilt(doc) = Shape(doc)

RECURSIVE Nodes(_)
Nodes(n) == {n} \cup (IF n.k \in {"obj", "arr"} THEN UNION {Nodes(n.vs[i]) : i \in 1..Len(n.vs)} ELSE {})
Reached == /\ \A h \in 1..Len(hs) : hs[h] \in Nodes(doc)
           /\ \A i \in 1..Len(log) : log[i].o = "key" => (log[i].r # 0 <=> log[i].x \in MNames(hs[log[i].h]))
Same == [][doc' = doc]_vars
Done == IF kind = "tour" THEN log # <<>> ELSE Len(log) = Most
Printed == Done => PrintT(ToJson([d |-> doc, log |-> log]))
=============================================================================
