------------------------------- MODULE MCEval -------------------------------
(***************************************************************************)
(* The evaluation of a filter expression as a state machine with a stack   *)
(* of work and a stack of values: one step takes one operator, in the      *)
(* order in which an evaluator visits them.  && and || put their right     *)
(* operand on the stack of work only if the left one does not decide.      *)
(*                                                                         *)
(* TLC explores it for all expressions of a small scope.  In every state   *)
(*   Remainder  what the pending work makes of the values is the value Ev  *)
(*              of the expression                                          *)
(*   Shrinks    (action property) the work decreases                       *)
(*   Total      the evaluation never gets stuck                            *)
(* and for the property in focus, the laws it states.  When the evaluation *)
(* ends, its behaviours are printed: the expression as a filter, and       *)
(* filters that compare it with its value.  They are replayed on the       *)
(* library.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Render

Focus == IOEnv.FOCUS
Big == IOEnv.SIZE # "1"

VARIABLES doc, expr, work, vals, stage
vars == <<doc, expr, work, vals, stage>>

---------------------------------------------------------------------------
(* Operands: written as a literal, or found in the document *)

LitOp(v) == [src |-> "lit", v |-> v]
NodeOp(v) == [src |-> "node", v |-> v]
\* paths that select nothing, several nodes, and array literals
Nothing == [src |-> "nothing"]
Several == [src |-> "several"]
RootOp == [src |-> "root"]
ListOp(vs) == [src |-> "list", vs |-> vs]

MaxI64 == Canon(TRUE, FALSE, MaxInt64, 0)
Scalars == {NulV, BoV(TRUE), BoV(FALSE), IntV(0), IntV(1), IntV(-1), IntV(3),
            DecV(FALSE, <<1>>, 0), DecV(FALSE, <<>>, 0), DecV(FALSE, <<5>>, -1), DecV(TRUE, <<1, 5>>, -1),
            StrV(""), StrV("a"), StrV("b"), StrV("0"), StrV("1"), StrV("1.0"), StrV("-1"), StrV("ab")}
MoreScalars == {IntV(2), IntV(-2), IntV(1000000000), MaxI64, DecV(FALSE, <<1>>, 9), DecV(FALSE, <<2, 5>>, -2),
                StrV("10"), StrV("9"), StrV("1e3"), StrV("null"), StrV("true"), StrV("B"), StrV(" "), StrV("0.5"), StrV("x1")}
ScalarsOf == IF Big THEN Scalars \cup MoreScalars ELSE Scalars
Structures == {Arr(<<>>), Arr(<<IntV(0)>>), Arr(<<IntV(1)>>), Obj(<<>>, <<>>), Obj(<<"a">>, <<IntV(1)>>)}

Odd == {Nothing, Several, RootOp, ListOp(<<>>), ListOp(<<IntV(1)>>), ListOp(<<IntV(0), NulV>>)}
LitOf(v) == ~(v.k = "num" /\ v.neg /\ v.ds = MinInt64)
Comparable == {LitOp(v) : v \in {w \in ScalarsOf : LitOf(w)}}
              \cup {NodeOp(v) : v \in {NulV, BoV(FALSE), IntV(1), DecV(FALSE, <<1>>, 0), StrV("a"), StrV("1"), IntV(0)}}
              \cup {NodeOp(v) : v \in Structures} \cup Odd
              \cup (IF Big THEN {NodeOp(v) : v \in ScalarsOf} ELSE {})
Numbers == {IntV(i) : i \in -3..3} \cup {IntV(7), IntV(-7), DecV(FALSE, <<1, 5>>, -1), DecV(TRUE, <<5>>, -1), DecV(FALSE, <<2>>, 0), DecV(FALSE, <<>>, 0), MaxI64}
ArithOps == {LitOp(v) : v \in Numbers \cup {BoV(TRUE), BoV(FALSE), StrV("2"), StrV("-0.5"), StrV("a"), StrV(""), NulV}}
            \cup {NodeOp(v) : v \in {IntV(5), IntV(-2), DecV(FALSE, <<2, 5>>, -1), StrV("3"), BoV(TRUE), NulV, Arr(<<IntV(1)>>), Obj(<<>>, <<>>),
                                     Canon(TRUE, TRUE, MinInt64, 0)}}
            \cup {Nothing, Several, ListOp(<<IntV(1)>>)}
Truths == {LitOp(v) : v \in {NulV, BoV(TRUE), BoV(FALSE), IntV(0), IntV(2), DecV(FALSE, <<>>, 0), DecV(FALSE, <<5>>, -1), StrV(""), StrV("0"), StrV("false")}}
          \cup {NodeOp(v) : v \in {NulV, BoV(TRUE), BoV(FALSE), IntV(0), IntV(2), DecV(FALSE, <<>>, 0), StrV(""), StrV("a"), Arr(<<>>), Obj(<<>>, <<>>)}}
          \cup {Nothing, Several, ListOp(<<IntV(0)>>)}
FewTruths == {LitOp(BoV(TRUE)), LitOp(BoV(FALSE)), LitOp(NulV), LitOp(StrV("")), NodeOp(NulV), NodeOp(IntV(0)), Nothing, Several}
FewNumbers == {LitOp(IntV(7)), LitOp(IntV(-2)), LitOp(IntV(0)), LitOp(DecV(FALSE, <<5>>, -1)), LitOp(StrV("2")), NodeOp(BoV(TRUE)), NodeOp(NulV)}

\* the expression of an operand, as member nm of the current node
OpExpr(o, nm) ==
  CASE o.src = "lit" -> IF o.v.k = "num" /\ o.v.neg THEN Un("-", Lit(Neg(o.v))) ELSE Lit(o.v)
    [] o.src = "node" -> EP(FALSE, <<Step1(K(nm))>>)
    [] o.src = "nothing" -> EP(FALSE, <<Step1(K("none"))>>)
    [] o.src = "several" -> EP(FALSE, <<Step1(K("s")), Step1(W)>>)
    [] o.src = "root" -> EP(TRUE, <<>>)
    [] o.src = "list" -> [x |-> "arr", es |-> Map(Lit, o.vs)]
\* the document: an array with one object, which has the members of the operands
Member(o, nm) == IF o.src = "node" THEN <<[nm |-> T(nm), v |-> o.v]>> ELSE <<>>
DocOf(ops) ==
  LET ms == Cat(MapN(LAMBDA i : Member(ops[i], <<"a", "b", "c">>[i]), Len(ops)))
            \o <<[nm |-> T("s"), v |-> Arr(<<IntV(1), NulV, StrV("a")>>)]>>
  IN Numbered(Arr(<<ObjC(Map(LAMBDA m : m.nm, ms), Map(LAMBDA m : m.v, ms))>>))

A(o) == OpExpr(o, "a")
B(o) == OpExpr(o, "b")
C(o) == OpExpr(o, "c")
Setup(ops, e) == [ops |-> ops, e |-> e]
Call(nm, args) == [x |-> "call", nm |-> T(nm), args |-> args]
MCall(recv, nm, args) == [x |-> "mcall", recv |-> recv, nm |-> T(nm), args |-> args]

\* the right operand in decided expressions: would make the filter fail
Poison == Call("nosuch", <<>>)

Setups ==
  CASE Focus = "C08" -> {Setup(<<l, r>>, Bin(op, A(l), B(r))) : op \in {"==", "!=", "===", "!=="}, l, r \in Comparable}
    [] Focus = "C09" -> {Setup(<<l, r>>, Bin(op, A(l), B(r))) : op \in {"<", "<=", ">", ">="}, l, r \in Comparable}
    [] Focus = "C10" -> {Setup(<<l, r>>, Bin(op, A(l), B(r))) : op \in {"&&", "||"}, l, r \in Truths}
                        \cup {Setup(<<l>>, Un("!", A(l))) : l \in Truths}
                        \cup {Setup(<<l>>, Un("!", Un("!", A(l)))) : l \in Truths}
                        \cup {Setup(<<l>>, Bin(op, A(l), Poison)) : op \in {"&&", "||"}, l \in Truths}
                        \cup {Setup(<<l, r, m>>, Bin(op, Bin(oq, A(l), B(r)), C(m))) : op, oq \in {"&&", "||"}, l, r, m \in FewTruths}
                        \cup {Setup(<<l, r>>, Un("!", Bin(op, A(l), B(r)))) : op \in {"&&", "||"}, l, r \in FewTruths}
                        \cup {Setup(<<l, r>>, Bin("==", Bin(op, A(l), B(r)), Lit(BoV(x)))) : op \in {"&&", "||"}, l, r \in FewTruths, x \in BOOLEAN}
                        \cup (IF Big THEN {Setup(<<l, r, m>>, Bin(op, A(l), Un("!", Bin(oq, B(r), C(m))))) : op, oq \in {"&&", "||"}, l, r, m \in FewTruths}
                                          \cup {Setup(<<l, r, m>>, Bin(op, Bin(oq, A(l), B(r)), C(m))) : op, oq \in {"&&", "||"}, l \in Truths, r, m \in Truths} ELSE {})
    [] Focus = "C11" -> {Setup(<<l, r>>, Bin(op, A(l), B(r))) : op \in {"+", "-", "*", "/", "%", "**"}, l, r \in ArithOps}
                        \cup {Setup(<<l>>, Un(op, A(l))) : op \in {"-", "+"}, l \in ArithOps \cup Comparable}
                        \cup {Setup(<<l, r, m>>, Bin(op, Bin(oq, A(l), B(r)), C(m))) :
                                op, oq \in IF Big THEN {"+", "-", "*", "/", "%", "**"} ELSE {"-", "/"}, l, r, m \in FewNumbers}
                        \cup (IF Big THEN {Setup(<<l, r, m>>, Bin(op, A(l), Bin(oq, B(r), C(m)))) :
                                op, oq \in {"+", "-", "*", "/", "%", "**"}, l, r, m \in FewNumbers} ELSE {})
    [] Focus = "C12" -> {Setup(<<l, r>>, Bin("in", A(l), B(r))) : l, r \in Comparable}
                        \cup {Setup(<<l, r>>, Bin("in", A(l), B(r))) : l \in Comparable,
                               r \in {NodeOp(Arr(<<x, y>>)) : x, y \in {IntV(1), DecV(FALSE, <<1>>, 0), NulV, StrV("a"), Arr(<<IntV(1)>>)}}
                                     \cup {ListOp(<<x, y>>) : x, y \in {IntV(1), NulV, StrV("1"), BoV(TRUE), DecV(FALSE, <<5>>, -1)}}}
    [] Focus = "C13" -> UNION {{Setup(<<l>>, Bin(op, f, Lit(IntV(i)))) :
                                f \in {Call("length", <<A(l)>>)} \cup (IF l.src = "lit" /\ l.v.k = "num" THEN {} ELSE {MCall(A(l), "length", <<>>)}),
                                op \in {"==", "<"}, i \in 0..3} :
                               l \in Comparable \cup {NodeOp(Arr(<<x, y>>)) : x, y \in {NulV, Arr(<<NulV>>)}}
                                     \cup {NodeOp(Obj(<<"length">>, <<IntV(3)>>))}}
                        \cup UNION {{Setup(<<l>>, Bin("==", Call("length", <<A(l)>>), MCall(A(l), "length", <<>>))),
                                     Setup(<<l>>, Bin("-", Call("length", <<A(l)>>), MCall(A(l), "length", <<>>))),
                                     Setup(<<l>>, Call("length", <<A(l)>>))} :
                                    l \in {m \in Comparable : ~(m.src = "lit" /\ m.v.k = "num")}}
                        \cup UNION {{Setup(<<l>>, f) : f \in {Poison, Un("!", Poison), Bin("==", Poison, Poison), Bin("&&", Lit(BoV(TRUE)), Poison),
                                                          Call("len", <<A(l)>>), Call("size", <<>>)}} : l \in Comparable}
                        \cup {Setup(<<l>>, EP(FALSE, <<Step1(K("a")), Step1(K("length"))>>)) :
                                l \in {NodeOp(Obj(<<"length">>, <<v>>)) : v \in {NulV, IntV(0), IntV(2)}} \cup {NodeOp(Arr(<<IntV(1)>>))}}

---------------------------------------------------------------------------
(* The machine *)

R == doc
Cur == doc.vs[1]
EvI(e) == [i |-> "ev", e |-> e]
Op(i, op) == [i |-> i, op |-> op]

\* (in two steps, so that TLC's workers share the initial states)
SetupSeq == SetToSeq(Setups)
Shares == 64
Init ==
  /\ doc \in 0..(Shares - 1)
  /\ expr = None
  /\ work = <<>>
  /\ vals = <<>>
  /\ stage = "start"
Start ==
  /\ stage = "start"
  /\ \E i \in {j \in 1..Len(SetupSeq) : j % Shares = doc} :
       LET s == SetupSeq[i]
       IN doc' = DocOf(s.ops) /\ expr' = s.e /\ work' = <<EvI(s.e)>>
  /\ stage' = "busy"
  /\ UNCHANGED vals
Busy == stage = "busy"
Over == stage = "ended"

\* the work that evaluates e, if it has parts
Parts(e) ==
  CASE e.x = "un" -> <<EvI(e.e), Op("un", e.op)>>
    [] e.x = "bin" /\ e.op \in {"&&", "||"} -> <<EvI(e.l), [i |-> "decide", op |-> e.op, r |-> e.r]>>
    [] e.x = "bin" -> <<EvI(e.l), EvI(e.r), Op("bin", e.op)>>
    [] e.x = "arr" -> Map(EvI, e.es) \o <<[i |-> "list", n |-> Len(e.es)]>>
    [] e.x = "call" -> Map(EvI, e.args) \o <<[i |-> "call", nm |-> e.nm, n |-> Len(e.args)]>>
    [] e.x = "mcall" -> <<EvI(e.recv)>> \o Map(EvI, e.args) \o <<[i |-> "call", nm |-> e.nm, n |-> Len(e.args) + 1]>>
Atom(e) == e.x \in {"lit", "path"}

Top == vals[Len(vals)]
Under == vals[Len(vals) - 1]
Drop(n) == SubSeq(vals, 1, Len(vals) - n)

Unary(op, v) ==
  LET n == ToNum(v) IN
  IF v.k = "bad" THEN v
  ELSE IF op = "!" THEN TriV(IF Truth(v) = 2 THEN 2 ELSE 1 - Truth(v))
  ELSE IF n.k = "nan" THEN NullV
  ELSE IF n.k = "bad" THEN Bad
  ELSE IF op = "+" THEN n
  ELSE IF n.int /\ ~FitsInt(~n.neg, IntDigits(n)) THEN Bad
  ELSE Neg(n)
Binary(op, l, r) ==
  CASE op \in {"==", "==="} -> TriV(EqT(l, r))
    [] op \in {"!=", "!=="} -> TriV(IF EqT(l, r) = 2 THEN 2 ELSE 1 - EqT(l, r))
    [] op \in {"<", "<=", ">", ">="} -> TriV(RelT(op, l, r))
    [] op = "in" -> TriV(InT(l, r))
    [] OTHER -> Arith(op, l, r)

\* an unknown function ends the evaluation of the whole filter
Failed == [work |-> <<>>, vals |-> <<ErrV>>]
\* one step: the work and values that follow w and v
After(w, v) ==
  LET h == Head(w)
      top == v[Len(v)]
      below(n) == SubSeq(v, 1, Len(v) - n)
      is(x, y) == [work |-> x, vals |-> y]
  IN CASE h.i = "ev" /\ Atom(h.e) -> is(Tail(w), Append(v, Ev(h.e, R, Cur)))
       [] h.i = "ev" -> is(Parts(h.e) \o Tail(w), v)
       [] h.i = "un" -> is(Tail(w), Append(below(1), Unary(h.op, top)))
       [] h.i = "bin" -> is(Tail(w), Append(below(2), Binary(h.op, v[Len(v) - 1], top)))
       [] h.i = "decide" ->
            LET t == Truth(top) IN
            IF t = 2 THEN is(Tail(w), Append(below(1), Bad))
            ELSE IF t = (IF h.op = "&&" THEN 0 ELSE 1) THEN is(Tail(w), Append(below(1), BoolV(t = 1)))
            ELSE is(<<EvI(h.r), [i |-> "truth"]>> \o Tail(w), below(1))
       [] h.i = "truth" -> is(Tail(w), Append(below(1), TriV(Truth(top))))
       [] h.i = "list" -> is(Tail(w), Append(below(h.n), [k |-> "list", lit |-> TRUE, vs |-> SubSeq(v, Len(v) - h.n + 1, Len(v))]))
       [] h.i = "call" -> IF h.nm # LENGTH THEN Failed
                          ELSE is(Tail(w), Append(below(h.n), IF h.n = 1 THEN LengthV(top) ELSE Bad))

Do(i) == /\ Busy /\ work # <<>> /\ Head(work).i = i
         /\ LET a == After(work, vals) IN work' = a.work /\ vals' = a.vals
         /\ UNCHANGED <<doc, expr, stage>>
Evaluate == Do("ev")
ApplyUnary == Do("un")
ApplyBinary == Do("bin")
Decide == Do("decide")
TakeTruth == Do("truth")
MakeList == Do("list")
CallFunction == Do("call")
End == /\ Busy /\ work = <<>> /\ stage' = "ended" /\ UNCHANGED <<doc, expr, work, vals>>

Next == \/ Start \/ Evaluate \/ ApplyUnary \/ ApplyBinary \/ Decide \/ TakeTruth \/ MakeList \/ CallFunction
        \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------

Value == Ev(expr, R, Cur)

\* the rest of the work in big steps
RECURSIVE Finish(_, _)
Finish(w, v) ==
  IF w = <<>> THEN v[1]
  ELSE IF Head(w).i = "ev" /\ ~Atom(Head(w).e)
  THEN LET x == Ev(Head(w).e, R, Cur)
       IN IF x.k = "err" THEN ErrV ELSE Finish(Tail(w), Append(v, x))
  ELSE LET a == After(w, v) IN Finish(a.work, a.vals)
\* (an evaluation that depends on something open may end in an error or not)
Remainder == Busy => LET x == Finish(work, vals) IN x = Value \/ x.k = "bad" \/ Value.k = "bad"
Total == Busy => work # <<>> \/ Len(vals) = 1

RECURSIVE SizeE(_)
SizeE(e) == CASE e.x = "un" -> 2 + SizeE(e.e)
              [] e.x = "bin" -> 3 + SizeE(e.l) + SizeE(e.r)
              [] e.x = "arr" -> 2 + FoldLeft(LAMBDA a, y : a + SizeE(y), 0, e.es)
              [] e.x = "call" -> 2 + FoldLeft(LAMBDA a, y : a + SizeE(y), 0, e.args)
              [] e.x = "mcall" -> 2 + SizeE(e.recv) + FoldLeft(LAMBDA a, y : a + SizeE(y), 0, e.args)
              [] OTHER -> 1
WorkOf(w) == FoldLeft(LAMBDA a, h : a + CASE h.i = "ev" -> SizeE(h.e)
                                          [] h.i = "decide" -> 2 + SizeE(h.r)
                                          [] OTHER -> 1, 0, w)
Shrinks == [][Busy /\ work' # work => WorkOf(work') < WorkOf(work)]_vars
Ends == <>Over

---------------------------------------------------------------------------
(* Laws *)

V(e) == Ev(e, R, Cur)
Flip(op) == CASE op = "<" -> ">" [] op = ">" -> "<" [] op = "<=" -> ">=" [] op = ">=" -> "<=" [] OTHER -> op
Not(t) == IF t = 2 THEN 2 ELSE 1 - t
IsBin(ops) == expr.x = "bin" /\ expr.op \in ops
Tr(e) == Truth(V(e))
Kind(v) == LET g == GetVal(v) IN IF g.k \in {"node", "list"} THEN "other" ELSE g.k

\* (it does not depend on the work, so it is checked when the evaluation ends)
Law == Over =>
  CASE Focus = "C08" ->
         LET with(op, l, r) == Tr(Bin(op, l, r))
             t == with("==", expr.l, expr.r)
         IN /\ with("==", expr.r, expr.l) = t
            /\ with("===", expr.l, expr.r) = t
            /\ with("!=", expr.l, expr.r) = Not(t)
            /\ with("!==", expr.l, expr.r) = Not(t)
            /\ Kind(V(expr.l)) # Kind(V(expr.r)) => t # 1
            /\ Kind(V(expr.l)) = "other" => t # 1
            /\ (expr.l = expr.r /\ Kind(V(expr.l)) \notin {"other", "bad"}) => t = 1
            \* values that are equal do not differ in order
            /\ t = 1 => with("<=", expr.l, expr.r) = 1 /\ with(">=", expr.l, expr.r) = 1
    [] Focus = "C09" ->
         LET with(op, l, r) == Tr(Bin(op, l, r))
             lt == with("<", expr.l, expr.r)
             le == with("<=", expr.l, expr.r)
             gt == with(">", expr.l, expr.r)
             ge == with(">=", expr.l, expr.r)
             eq == with("==", expr.l, expr.r)
         IN 2 \notin {lt, le, gt, ge} =>
            /\ \A op \in {"<", "<=", ">", ">="} : with(op, expr.l, expr.r) = with(Flip(op), expr.r, expr.l)
            /\ lt = 1 => le = 1 /\ gt = 0 /\ ge = 0
            /\ gt = 1 => ge = 1 /\ lt = 0 /\ le = 0
            /\ (le = 1 /\ ge = 1) => lt = 0 /\ gt = 0
            \* comparable: exactly one of <, > and both <= and >=; else none of them
            /\ lt + gt + (IF le = 1 /\ ge = 1 THEN 1 ELSE 0) = IF le + ge = 0 THEN 0 ELSE 1
            /\ "other" \in {Kind(V(expr.l)), Kind(V(expr.r))} => lt + le + gt + ge = 0
            /\ ({Kind(V(expr.l)), Kind(V(expr.r))} = {"null"}) => le = 1 /\ ge = 1
            /\ (Kind(V(expr.l)) = "null" /\ Kind(V(expr.r)) \in {"num", "bool", "str"}) => lt = 1
            /\ eq = 1 => le = 1 /\ ge = 1
    [] Focus = "C10" ->
         /\ expr.x = "un" => Tr(expr) = Not(Tr(expr.e))
         /\ IsBin({"&&"}) => LET l == Tr(expr.l)
                                 r == Tr(expr.r)
                             IN 2 \notin {l, r} => Tr(expr) = l * r
         /\ IsBin({"||"}) => LET l == Tr(expr.l)
                                 r == Tr(expr.r)
                             IN 2 \notin {l, r} => Tr(expr) = MaxI(l, r)
         \* the right operand of a decided expression does not matter
         /\ IsBin({"&&"}) /\ Tr(expr.l) = 0 /\ V(expr.l).k # "err" => V(expr) = BoolV(FALSE)
         /\ IsBin({"||"}) /\ Tr(expr.l) = 1 => V(expr) = BoolV(TRUE)
         /\ IsBin({"&&", "||"}) => V(expr).k \in {"bool", "bad", "err"}
    [] Focus = "C11" ->
         /\ V(expr).k \in {"num", "null", "bad"}
         /\ IsBin({"+", "*"}) => V(expr) = V(Bin(expr.op, expr.r, expr.l))
         /\ IsBin({"-"}) => LET m == V(Bin("+", expr.l, Un("-", expr.r)))
                            IN "bad" \in {m.k, V(expr).k} \/ m = V(expr)
         /\ IsBin({"/", "%"}) =>
              LET a == ToNum(V(expr.l))
                  b == ToNum(V(expr.r))
                  q == V(Bin("/", expr.l, expr.r))
                  m == V(Bin("%", expr.l, expr.r))
              IN /\ (b.k = "num" /\ IsZero(b) /\ a.k # "bad") => q.k = "null" /\ m.k = "null"
                 /\ (a.k = "num" /\ b.k = "num" /\ ~IsZero(b) /\ a.int /\ b.int /\ q.k = "num" /\ m.k = "num") =>
                      \* a = (a / b) * b + a % b, with a remainder smaller than b that has a's sign
                      /\ NumCmp(NumAdd(NumMul(q, b), m), a) = 0
                      /\ AbsCmp(m, b) = -1
                      /\ ~IsZero(m) => m.neg = a.neg
                 /\ (a.k = "num" /\ b.k = "num" /\ ~IsZero(b) /\ ~(a.int /\ b.int) /\ q.k = "num") =>
                      LET back == NumMul(q, b) IN back.k = "bad" \/ NumCmp(back, a) = 0
         \* null only for operands that are no numbers, and divisions by zero
         /\ expr.x = "bin" =>
              LET a == ToNum(V(expr.l))
                  b == ToNum(V(expr.r))
              IN "bad" \notin {a.k, b.k} =>
                   (V(expr).k = "null" <=> "nan" \in {a.k, b.k} \/ (expr.op \in {"/", "%"} /\ IsZero(b)))
    [] Focus = "C12" ->
         LET r == V(expr.r)
             g == GetVal(r)
             ms == CASE g.k = "null" -> {}
                     [] g.k = "list" -> {g.vs[i] : i \in 1..Len(g.vs)}
                     [] g.k = "node" -> IF g.n.k = "arr" THEN {NodeV(g.n.vs[i]) : i \in 1..Len(g.n.vs)} ELSE {g}
                     [] OTHER -> {g}
             l == V(expr.l)
         IN \* every member counts, and nothing else
            Tr(expr) # 2 => ((Tr(expr) = 1) <=> \E m \in ms : EqT(m, l) = 1)
    [] Focus = "C13" ->
         \A v \in {V(expr)} : expr.x = "call" /\ expr.nm = LENGTH /\ Len(expr.args) = 1 =>
              /\ v.k = "num" /\ v = V([x |-> "mcall", recv |-> expr.args[1], nm |-> expr.nm, args |-> <<>>])
    [] OTHER -> TRUE

---------------------------------------------------------------------------
(* Behaviours: the document, a text, and the positions that it selects *)

Query(e) == LET t == Tr(e)
            IN IF t = 2 THEN {}
               ELSE {[d |-> doc, t |-> Show(Path(TRUE, <<Step1(F(e))>>), "dot"),
                      p |-> IF t = 1 THEN <<<<1>>>> ELSE <<>>]}
\* values that can be written
Writable(v) == CASE v.k = "num" -> ~(v.int /\ v.neg /\ v.ds = MinInt64)
                 [] OTHER -> v.k \in {"null", "bool", "str"}
LitE(v) == IF v.k = "num" /\ v.neg THEN Un("-", Lit(Neg(v))) ELSE Lit(v)
Queries ==
  LET v == GetVal(Value)
      half == Bin("/", expr, Lit(IntV(2)))
      hv == V(half)
  IN Query(expr)
     \cup (IF Focus \in {"C11"} /\ Writable(v) THEN Query(Bin("==", expr, LitE(v))) \cup Query(Bin("!=", LitE(v), expr)) ELSE {})
     \cup (IF Focus = "C10" /\ v.k = "bool" THEN Query(Bin("==", expr, Lit(v))) ELSE {})
     \* whether the result is an integer or a decimal shows when it is halved
     \cup (IF Focus \in {"C11", "C13"} /\ v.k = "num" /\ hv.k = "num" /\ Writable(hv) THEN Query(Bin("==", half, LitE(hv))) ELSE {})
Printed == Over => \A q \in Queries : PrintT(ToJson(q))
=============================================================================
