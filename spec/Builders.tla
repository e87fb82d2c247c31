------------------------------ MODULE Builders ------------------------------
(***************************************************************************)
(* Paths made by the path builders: lists of elements, each of which       *)
(* selects the root or the current element, or has the parts of a step,    *)
(* and which may go on at any depth (rec: the next step is after '..').    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Parser, Eval

Elem(sel, parts, rec) == [sel |-> sel, parts |-> parts, rec |-> rec]
BRoot == <<Elem("root", <<>>, FALSE)>>
BCurrent == <<Elem("cur", <<>>, FALSE)>>
BWild == <<Elem("step", <<WildPart>>, FALSE)>>
BKey(nm) == <<Elem("step", <<KeyPart(nm, PosOfText(nm))>>, FALSE)>>
BIndex(text, i) == <<Elem("step", <<KeyPart(text, i)>>, FALSE)>>
BEmpty == <<>>
\* a parsed path; rec of an element is that of the step after it
BParsed(p) ==
  LET n == Len(p.steps)
      rec(i) == i < n /\ p.steps[i + 1].rec
  IN <<Elem(IF p.abs THEN "root" ELSE "cur", <<>>, rec(0))>>
     \o MapN(LAMBDA i : Elem("step", p.steps[i].parts, rec(i)), n)

BAppend(ps) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ps)
BRec(p) == IF p = <<>> THEN p ELSE [p EXCEPT ![Len(p)].rec = TRUE]

\* Is there a text that it corresponds to? (The meaning of others is not
\* specified.)
Meaningful(p) == /\ p # <<>>
                 /\ p[1].sel # "step"
                 /\ \A i \in 2..Len(p) : p[i].sel = "step"
Meaning(p) ==
  LET n == Len(p) - 1
  IN [abs |-> p[1].sel = "root",
      steps |-> MapN(LAMBDA i : Step(p[i].rec, p[i + 1].parts), n)
                \o IF p[n + 1].rec THEN <<Step(TRUE, <<WildPart>>)>> ELSE <<>>]
=============================================================================
