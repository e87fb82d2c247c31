------------------------------- MODULE Agree -------------------------------
(***************************************************************************)
(* What holds even where the specification leaves a result open: paths     *)
(* with the same syntax tree select the same nodes of the same document.   *)
(* The tree has no parentheses, blanks, quotes, or notations of steps, so  *)
(* this covers the grouping of operators (C25) and notations (C22).  A     *)
(* comparison also means the same with its operands exchanged (C08, C09),  *)
(* and an operator means the same for a number as for a node of the        *)
(* document with that number.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num, Eval

Some(f(_), s) == \E i \in 1..Len(s) : f(s[i])

\* Trees with parts that this specification does not know stand for many texts
RECURSIVE UnknownX(_)
UnknownPart(p) ==
  CASE p.p = "wild" -> FALSE
    [] p.p = "key" -> p.ix.k = "bad"
    [] p.p = "slice" -> UnknownX(p.a) \/ UnknownX(p.b) \/ UnknownX(p.c)
    [] p.p = "filter" -> UnknownX(p.x)
    [] OTHER -> TRUE
UnknownSteps(ss) == Some(LAMBDA s : Some(UnknownPart, s.parts), ss)
UnknownX(x) ==
  CASE x.x = "none" -> FALSE
    [] x.x = "lit" -> x.v.k = "bad"
    [] x.x = "path" -> UnknownSteps(x.steps)
    [] x.x = "arr" -> Some(UnknownX, x.es)
    [] x.x = "un" -> UnknownX(x.e)
    [] x.x = "bin" -> UnknownX(x.l) \/ UnknownX(x.r)
    [] x.x = "call" -> Some(UnknownX, x.args)
    [] x.x = "mcall" -> UnknownX(x.recv) \/ Some(UnknownX, x.args)
    [] OTHER -> TRUE

\* the operator with its operands exchanged
Mirror(op) == CASE op = "<" -> ">" [] op = ">" -> "<" [] op = "<=" -> ">=" [] op = ">=" -> "<=" [] OTHER -> op

\* the tree with the operands of its comparisons exchanged, as far as they are
\* not below other operators
RECURSIVE Exchanged(_)
Exchanged(x) ==
  CASE x.x = "bin" /\ x.op \in {"==", "!=", "===", "!==", "<", ">", "<=", ">="} -> [x EXCEPT !.op = Mirror(x.op), !.l = x.r, !.r = x.l]
    [] x.x = "bin" /\ x.op \in {"&&", "||"} -> [x EXCEPT !.l = Exchanged(x.l), !.r = Exchanged(x.r)]
    [] x.x = "un" /\ x.op = "!" -> [x EXCEPT !.e = Exchanged(x.e)]
    [] OTHER -> x
ExchangedSteps(ss) ==
  Map(LAMBDA s : [s EXCEPT !.parts = Map(LAMBDA p : IF p.p = "filter" THEN [p EXCEPT !.x = Exchanged(p.x)] ELSE p, s.parts)], ss)

\* the tree with the paths from the root to single numbers replaced by the
\* numbers
RECURSIVE Valued(_, _)
Valued(x, R) ==
  CASE x.x = "path" /\ x.abs ->
         LET v == Ev(x, R, R)
         IN IF v.k = "node" /\ v.n.k = "num"
            THEN Lit([k |-> "num", int |-> v.n.int, neg |-> v.n.neg, ds |-> v.n.ds, e |-> v.n.e]) ELSE x
    [] x.x = "bin" -> [x EXCEPT !.l = Valued(x.l, R), !.r = Valued(x.r, R)]
    [] x.x = "un" -> [x EXCEPT !.e = Valued(x.e, R)]
    [] OTHER -> x
ValuedSteps(ss, R) ==
  Map(LAMBDA s : [s EXCEPT !.parts = Map(LAMBDA p : IF p.p = "filter" THEN [p EXCEPT !.x = Valued(p.x, R)] ELSE p, s.parts)], ss)
ValuedPath(path, R) == [path EXCEPT !.steps = ValuedSteps(path.steps, R)]

Known(path) == ~UnknownSteps(path.steps)
Alike(p, q) == p = q \/ p = [q EXCEPT !.steps = ExchangedSteps(q.steps)]

\* an outcome, regardless of the order that the document model gives to members
Told(o) == <<o.pan, o.err, SortSeq(o.ids, LAMBDA a, b : a < b)>>
OneOf(outs) == \A i \in 1..Len(outs) : Told(outs[i]) = Told(outs[1])
============================================================================
