------------------------------ MODULE MCGroup ------------------------------
(***************************************************************************)
(* The grouping of operators, by a machine that is quite different from    *)
(* the recursive descent of Parser.tla: a shift-reduce parser with a stack *)
(* of trees and a stack of waiting operators, driven by the published      *)
(* table of precedences.  TLC explores it for all sequences of operators   *)
(* of a small length.  Checked when it accepts:                            *)
(*   Same      ParsePath groups the text in the same way                   *)
(*   Explicit  ParsePath gives the same to the text with all parentheses   *)
(*   Closer    of two neighbouring operators the tighter one is deeper     *)
(* The behaviours evaluate the text, with and without the parentheses, on  *)
(* operands that tell groupings apart.                                     *)
(***************************************************************************)
EXTENDS Operands

Big == IOEnv.SIZE # "1"
Depth == IOEnv.DEPTH          \* number of binary operators
MostOps == CASE Depth = "1" -> 1 [] Depth = "2" -> 2 [] OTHER -> 3

Pre == {"!", "-"}

\* tokens: [k |-> "op", op], [k |-> "pre", op], [k |-> "x", i] (operand i)
VARIABLES todo, trees, waiting, toks
vars == <<todo, trees, waiting, toks>>

OpTok(o) == [k |-> "op", op |-> o]
PreTok(o) == [k |-> "pre", op |-> o]
XTok(i) == [k |-> "x", i |-> i]

\* token sequences with operators os and prefixes ps (ps[i] before operand i)
TokensOf(os, ps) ==
  Cat(MapN(LAMBDA i : (IF i = 1 THEN <<>> ELSE <<OpTok(os[i - 1])>>)
                      \o (IF ps[i] = "" THEN <<>> ELSE <<PreTok(ps[i])>>) \o <<XTok(i)>>, Len(os) + 1))
OpsAt(m) == IF m >= 3 THEN (IF Big THEN FewOps \cup {"%", "<=", "!="} ELSE FewOps) ELSE Ops
NoPre(m) == [i \in 1..m |-> ""]
PresOf(m) == {NoPre(m)} \cup (IF m = 4 /\ ~Big THEN {} ELSE {[NoPre(m) EXCEPT ![j] = p] : j \in 1..m, p \in Pre})

Init == /\ todo \in {"none"} \cup OpsAt(MostOps)    \* (shares the work)
        /\ trees = <<>> /\ waiting = <<>> /\ toks = <<>>
Choose == /\ toks = <<>>
          /\ \E os \in [1..(MostOps - 1) -> OpsAt(MostOps)] : \E ps \in PresOf(MostOps + 1) :
               /\ todo # "none"
               /\ toks' = TokensOf(<<todo>> \o os, ps)
               /\ todo' = toks'
          /\ UNCHANGED <<trees, waiting>>

Reading == toks # <<>>
\* grammar.md: ** binds tightest and to the right, || loosest
Level(o) == CASE o.k = "pre" -> 13 [] OTHER -> BinLevel(o.op)
Reduced(ts, o) ==
  IF o.k = "pre" THEN Append(SubSeq(ts, 1, Len(ts) - 1), Un(o.op, ts[Len(ts)]))
  ELSE Append(SubSeq(ts, 1, Len(ts) - 2), MkBin(o.op, ts[Len(ts) - 1], ts[Len(ts)]))
Front1(s) == SubSeq(s, 1, Len(s) - 1)
\* the waiting operator comes first
Before(w, o) == Level(w) > Level(o) \/ (Level(w) = Level(o) /\ o.op # "**")

ShiftOperand == /\ Reading /\ todo # <<>> /\ Head(todo).k = "x"
                /\ trees' = Append(trees, X(Head(todo).i)) /\ todo' = Tail(todo) /\ UNCHANGED <<waiting, toks>>
ShiftPrefix == /\ Reading /\ todo # <<>> /\ Head(todo).k = "pre"
               /\ waiting' = Append(waiting, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<trees, toks>>
MustReduce == /\ waiting # <<>>
              /\ IF todo = <<>> THEN TRUE
                 ELSE Head(todo).k = "op" /\ Before(Last(waiting), Head(todo)) = TRUE
ShiftOperator == /\ Reading /\ todo # <<>> /\ Head(todo).k = "op" /\ ~MustReduce
                 /\ waiting' = Append(waiting, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<trees, toks>>
Reduce == /\ Reading /\ MustReduce
          /\ trees' = Reduced(trees, Last(waiting)) /\ waiting' = Front1(waiting) /\ UNCHANGED <<todo, toks>>
Next == Choose \/ ShiftOperand \/ ShiftPrefix \/ ShiftOperator \/ Reduce
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == Reading /\ todo = <<>> /\ waiting = <<>>
Tree0 == trees[1]

TokText(t, ws) == CASE t.k = "x" -> ws[t.i] [] t.k = "pre" -> T(t.op) [] OTHER -> T(" ") \o T(t.op) \o T(" ")
Plain(ws) == Cat(Map(LAMBDA t : TokText(t, ws), toks))
Same == Done => \A k \in {1, 8} : Parsed(Plain(Texts0[k])) = Fill(Tree0, Exprs0[k])
Explicit == Done => Parsed(Parens(Tree0, Texts0[1])) = Fill(Tree0, Exprs0[1])
\* a binary operator under another one: it is tighter, or as tight and on the
\* side to which operators of its level group
RECURSIVE Closer(_)
Closer(t) ==
  /\ t.x = "bin" =>
       /\ Closer(t.l) /\ Closer(t.r)
       /\ t.l.x = "bin" => BinLevel(t.l.op) > BinLevel(t.op) \/ (BinLevel(t.l.op) = BinLevel(t.op) /\ t.op # "**")
       /\ t.r.x = "bin" => BinLevel(t.r.op) > BinLevel(t.op) \/ (BinLevel(t.r.op) = BinLevel(t.op) /\ t.op = "**")
  /\ t.x = "un" => t.e.x # "bin" /\ Closer(t.e)
Nested == Done => Closer(Tree0)

Printed == Done => \A k \in 1..Len(Pools) :
  LET bs == Behaviours(Tree0, Plain(Texts0[k]), Parens(Tree0, Texts0[k]), k) IN \A i \in 1..Len(bs) : PrintT(ToJson(bs[i]))
=============================================================================
