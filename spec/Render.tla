------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Documents, abstract syntax and texts for the models: constructors, and  *)
(* Show, which writes abstract paths as texts in each of the notations.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num, Lexer, Parser, Eval

---------------------------------------------------------------------------
(* Texts *)

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiCode == [c \in {SubSeq(Ascii, i, i) : i \in 1..95} |->
                31 + CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = c]
\* the code points of an ASCII string
T(str) == MapN(LAMBDA i : AsciiCode[SubSeq(str, i, i)], Len(str))
Cat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
\* the members of ss with s between them
Sep(s, ss) == IF ss = <<>> THEN <<>>
              ELSE Cat(MapN(LAMBDA i : IF i = 1 THEN ss[i] ELSE s \o ss[i], Len(ss)))

---------------------------------------------------------------------------
(* Documents without identities; Numbered gives identities in document     *)
(* order                                                                   *)

NulV == [k |-> "null"]
BoV(b) == [k |-> "bool", b |-> b]
IntV(i) == IntNum(i)
DecV(neg, ds, e) == Canon(FALSE, neg, ds, e)
StrV(s) == [k |-> "str", s |-> T(s)]
Arr(vs) == [k |-> "arr", vs |-> vs]
ObjC(ks, vs) == [k |-> "obj", ks |-> ks, vs |-> vs]
Obj(ks, vs) == ObjC(Map(T, ks), vs)

RECURSIVE NumberFrom(_, _)
\* [n |-> the tree t numbered from i, next |-> the next number]
NumberFrom(t, i) ==
  IF t.k \notin {"arr", "obj"} THEN [n |-> [id |-> i] @@ t, next |-> i + 1]
  ELSE LET f == FoldLeft(LAMBDA a, v : LET x == NumberFrom(v, a.next)
                                       IN [vs |-> Append(a.vs, x.n), next |-> x.next],
                         [vs |-> <<>>, next |-> i + 1], t.vs)
       IN [n |-> [id |-> i] @@ [t EXCEPT !.vs = f.vs], next |-> f.next]
Numbered(t) == NumberFrom(t, 1).n

\* sequences over S with at most n members
SeqUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
\* the containers with children in S, at most n of them, and names in K
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Arrays(S, n) == {Arr(s \o <<>>) : s \in SeqUpTo(S, n)}
Objects(S, n, K) == UNION {{ObjC(ks \o <<>>, vs \o <<>>) : vs \in [1..Len(ks) -> S]} :
                            ks \in {x \in SeqUpTo(K, n) : Distinct(x)}}
Containing(S, n, K) == Arrays(S, n) \cup Objects(S, n, K)
RECURSIVE DocsUpTo(_, _, _, _)
\* documents of depth d
DocsUpTo(L, d, n, K) == IF d = 0 THEN L ELSE L \cup Containing(DocsUpTo(L, d - 1, n, K), n, K)

RECURSIVE SizeOf(_)
SizeOf(t) == IF t.k \in {"arr", "obj"} THEN 1 + FoldLeft(LAMBDA a, v : a + SizeOf(v), 0, t.vs) ELSE 1

---------------------------------------------------------------------------
(* Abstract syntax *)

IntText(i) == IF i < 0 THEN <<MINUS>> \o (IF i = 0 THEN <<48>> ELSE Map(LAMBDA d : d + 48, NatOf(-i)))
              ELSE IF i = 0 THEN <<48>> ELSE Map(LAMBDA d : d + 48, NatOf(i))
K(s) == KeyPart(T(s), PosOfText(T(s)))
KC(s) == KeyPart(s, PosOfText(s))
I(i) == KeyPart(IntText(i), IntNum(i))
W == WildPart
N(i) == IF i < 0 THEN [x |-> "un", op |-> "-", e |-> Lit(IntNum(-i))] ELSE Lit(IntNum(i))
SL(a, b, c) == [p |-> "slice", a |-> a, b |-> b, c |-> c]
F(x) == [p |-> "filter", x |-> x]
Path(abs, steps) == [abs |-> abs, steps |-> steps]
EP(abs, steps) == [x |-> "path", abs |-> abs, steps |-> steps]
Bin(op, l, r) == [x |-> "bin", op |-> op, l |-> l, r |-> r]
Un(op, e) == [x |-> "un", op |-> op, e |-> e]
Step1(p) == Step(FALSE, <<p>>)
Rec1(p) == Step(TRUE, <<p>>)

---------------------------------------------------------------------------
(* Writing *)

\* names that can be written without quotes
PlainName(s) == s # <<>> /\ (IsAlpha(s[1]) \/ s[1] = USC)
                /\ (\A i \in 1..Len(s) : IsAlpha(s[i]) \/ IsDigit(s[i]) \/ s[i] = USC)
                /\ s # T("in")
QuoteChar(c, q) == IF c = BSL \/ c = q THEN <<BSL, c>>
                   ELSE IF c = LF THEN T("\\n")
                   ELSE IF c = CR THEN T("\\r")
                   ELSE <<c>>
Quoted(s, q) == <<q>> \o Cat(Map(LAMBDA c : QuoteChar(c, q), s)) \o <<q>>

\* the canonical text of a number
NumText(n) ==
  (IF n.neg THEN <<MINUS>> ELSE <<>>) \o
  (IF n.int THEN IF IsZero(n) THEN <<48>> ELSE Map(LAMBDA d : d + 48, IntDigits(n))
   ELSE (IF IsZero(n) THEN T("0.0") ELSE Map(LAMBDA d : d + 48, n.ds) \o T(".0e")
        \o IntText(n.e)))

LitText(v) == CASE v.k = "null" -> T("null")
                [] v.k = "bool" -> IF v.b THEN T("true") ELSE T("false")
                [] v.k = "str" -> Quoted(v.s, SQ)
                [] v.k = "num" -> NumText(v)

IsPosition(p) == p.p = "key" /\ p.ix.k = "num"

RECURSIVE ShowE(_, _), ShowBound(_, _), ShowSteps(_, _), ShowPart(_, _), ShowParts(_, _)

\* an expression with all its operators in parentheses
ShowE(e, style) ==
  CASE e.x = "lit" -> LitText(e.v)
    [] e.x = "path" -> (IF e.abs THEN T("$") ELSE T("@")) \o ShowSteps(e.steps, style)
    [] e.x = "arr" -> T("[") \o Sep(T(","), Map(LAMBDA y : ShowE(y, style), e.es)) \o T("]")
    [] e.x = "un" -> IF e.op = "-" /\ e.e.x = "lit" THEN T("-") \o ShowE(e.e, style)
                     ELSE T("(") \o T(e.op) \o ShowE(e.e, style) \o T(")")
    [] e.x = "bin" -> T("(") \o ShowE(e.l, style) \o T(" ") \o T(e.op) \o T(" ")
                      \o ShowE(e.r, style) \o T(")")
    [] e.x = "call" -> e.nm \o T("(") \o Sep(T(","), Map(LAMBDA y : ShowE(y, style), e.args)) \o T(")")
    [] e.x = "mcall" -> ShowE(e.recv, style) \o T(".") \o e.nm \o T("(")
                        \o Sep(T(","), Map(LAMBDA y : ShowE(y, style), e.args)) \o T(")")
    [] e.x = "none" -> <<>>

\* a bound of a slice: numbers, paths and calls stand for themselves
ShowBound(e, style) == IF e.x = "lit" /\ e.v.k # "num" THEN T("(") \o ShowE(e, style) \o T(")") ELSE ShowE(e, style)

\* inside of brackets
ShowPart(p, style) ==
  CASE p.p = "wild" -> T("*")
    [] p.p = "key" -> IF IsPosition(p) /\ p.nm = NumText(p.ix) THEN p.nm
                      ELSE IF style \in {"dot", "bare"} /\ PlainName(p.nm) THEN p.nm
                      ELSE Quoted(p.nm, IF style = "single" THEN SQ ELSE DQ)
    [] p.p = "slice" -> ShowBound(p.a, style) \o T(":") \o ShowBound(p.b, style)
                        \o (IF p.c = None THEN <<>> ELSE T(":") \o ShowBound(p.c, style))
    [] p.p = "filter" -> T("?(") \o ShowE(p.x, style) \o T(")")
ShowParts(ps, style) == T("[") \o Sep(T(","), Map(LAMBDA p : ShowPart(p, style), ps)) \o T("]")

\* after a dot, or <<>> if the part has no such form
ShowName(p, style) ==
  CASE p.p = "wild" -> T("*")
    [] p.p = "key" /\ IsPosition(p) /\ p.nm = NumText(p.ix) -> IF p.ix.neg THEN <<>> ELSE p.nm
    [] p.p = "key" -> IF style = "qdot" THEN Quoted(p.nm, SQ)
                      ELSE IF PlainName(p.nm) THEN p.nm ELSE Quoted(p.nm, DQ)
    [] OTHER -> <<>>
\* (".0.0" would be one number, so only the last step is a dotted position)
ShowStep(st, style, last) ==
  LET q == st.parts[1]
      nm == IF style \in {"dot", "qdot"} /\ Len(st.parts) = 1 /\ (last \/ ~IsPosition(q))
            THEN ShowName(q, style) ELSE <<>>
  IN (IF st.rec THEN T("..") ELSE IF nm # <<>> THEN T(".") ELSE <<>>)
     \o (IF nm # <<>> THEN nm ELSE ShowParts(st.parts, style))
ShowSteps(ss, style) == Cat(MapN(LAMBDA i : ShowStep(ss[i], style, i = Len(ss)), Len(ss)))

\* paths that the slash notation can say
SlashPath(p) == p.abs /\ \A i \in 1..Len(p.steps) :
                  /\ ~p.steps[i].rec /\ Len(p.steps[i].parts) = 1
                  /\ LET q == p.steps[i].parts[1]
                     IN q.p = "wild" \/ (q.p = "key" /\ (IsPosition(q) => ~q.ix.neg))
ShowSlash(p) ==
  IF p.steps = <<>> THEN <<SLASH>>
  ELSE Cat(Map(LAMBDA s : <<SLASH>> \o ShowName(s.parts[1], "dot"), p.steps))

Styles == {"dot", "single", "double", "bare", "qdot", "slash"}
Show(p, style) ==
  IF style = "slash" THEN ShowSlash(p)
  ELSE (IF p.abs THEN T("$") ELSE T("@")) \o ShowSteps(p.steps, style)
=============================================================================
