------------------------------ MODULE MCNumber ------------------------------
(***************************************************************************)
(* Numeric literals, read one character at a time, with their value kept   *)
(* up to date by Horner's rule: an automaton over the notations (decimal,  *)
(* fraction, exponent, 0x, 0o, 0b, underscores).  Checked in every state   *)
(* where the literal could end:                                            *)
(*   Agrees   the value is the value that the specification gives to the   *)
(*            literal                                                      *)
(*   OneToken the literal is one token of the language                     *)
(* The behaviours use it as an operand, a position and a slice bound.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Render

Big == IOEnv.SIZE # "1"
Most == IF Big THEN 6 ELSE 5

\* ds: digits of the value so far, in base 10; frac: digits after the point;
\* expo: digits of the exponent
VARIABLES read, mode, ds, frac, expo, eneg
vars == <<read, mode, ds, frac, expo, eneg>>

Init == read = <<>> /\ mode = "start" /\ ds = <<>> /\ frac = 0 /\ expo = <<>> /\ eneg = FALSE

Read(c) == read' = Append(read, c)
Keep(S) == (IF "ds" \in S THEN UNCHANGED ds ELSE TRUE) /\ (IF "frac" \in S THEN UNCHANGED frac ELSE TRUE)
           /\ (IF "expo" \in S THEN UNCHANGED <<expo, eneg>> ELSE TRUE)
Room == Len(read) < Most
Digits10 == IF Big THEN {48, 49, 50, 55, 57} ELSE {48, 49, 55}

First == \E c \in Digits10 : Read(c) /\ mode = "start" /\ mode' = "int" /\ ds' = <<c - 48>> /\ Keep({"frac", "expo"})
Digit == /\ mode = "int" /\ Room
         /\ \E c \in Digits10 : Read(c) /\ ds' = Append(ds, c - 48)
         /\ UNCHANGED mode /\ Keep({"frac", "expo"})
Under == /\ mode \in {"int", "frac", "hex", "oct", "bin"} /\ Room
         /\ Read(USC) /\ UNCHANGED mode /\ Keep({"ds", "frac", "expo"})
Base == /\ read = <<48>> /\ Room
        /\ \E b \in {[c |-> 120, m |-> "hex0"], [c |-> 88, m |-> "hex0"], [c |-> 111, m |-> "oct0"],
                     [c |-> 79, m |-> "oct0"], [c |-> 98, m |-> "bin0"], [c |-> 66, m |-> "bin0"]} :
             Read(b.c) /\ mode' = b.m
        /\ ds' = <<>> /\ Keep({"frac", "expo"})
InBase(m0, m, base, cs) ==
  /\ mode \in {m0, m} /\ Room
  /\ \E c \in cs : Read(c) /\ ds' = NatAdd(NatScale(ds, base), NatOf(HexVal(c)))
  /\ mode' = m /\ Keep({"frac", "expo"})
Hex == InBase("hex0", "hex", 16, {48, 49, 57, 97, 70})
Oct == InBase("oct0", "oct", 8, {48, 49, 55})
Bin2 == InBase("bin0", "bin", 2, {48, 49})
Point == mode = "int" /\ Room /\ Read(DOT) /\ mode' = "point" /\ Keep({"ds", "frac", "expo"})
Fraction == /\ mode \in {"point", "frac"} /\ Room
            /\ \E c \in Digits10 : Read(c) /\ ds' = Append(ds, c - 48)
            /\ frac' = frac + 1 /\ mode' = "frac" /\ Keep({"expo"})
Exponent == /\ mode \in {"int", "frac"} /\ Room
            /\ \E c \in {69, 101} : Read(c) /\ mode' = "e"
            /\ Keep({"ds", "frac", "expo"})
Sign == /\ mode = "e" /\ Room
        /\ \E c \in {PLUS, MINUS} : Read(c) /\ eneg' = (c = MINUS)
        /\ mode' = "es" /\ UNCHANGED expo /\ Keep({"ds", "frac"})
ExpDigit == /\ mode \in {"e", "es", "exp"} /\ Room
            /\ \E c \in {48, 49, 50} : Read(c) /\ expo' = Append(expo, c - 48)
            /\ mode' = "exp" /\ UNCHANGED eneg /\ Keep({"ds", "frac"})
Next == First \/ Digit \/ Under \/ Base \/ Hex \/ Oct \/ Bin2 \/ Point \/ Fraction \/ Exponent \/ Sign \/ ExpDigit
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Complete == mode \in {"int", "frac", "exp", "hex", "oct", "bin"}
Value == IF mode \in {"int", "hex", "oct", "bin"} THEN IntLiteral(ds)
         ELSE LET e == IntOf(StripLead(expo)) IN Canon(FALSE, FALSE, ds, (IF eneg THEN -e ELSE e) - frac)
Lexed == Lex(read)
OneToken == Complete => Lexed.st = "ok" /\ Len(Lexed.toks) = 1 /\ Lexed.toks[1].t \in NumTypes
Agrees == Complete => NumOf(read, Lexed.toks[1]) = Value

\* numbers near the value, and other readings of the text
IntNode(d) == Canon(TRUE, FALSE, d, 0)
Operands ==
  LET v == Value
      whole == Integral(v) /\ Mag(v) <= 15
      n == IntDigits(v)
  IN IF whole THEN <<IntNode(n), [IntNode(n) EXCEPT !.int = FALSE], IntNode(NatAdd(n, <<1>>)), IntNode(Append(n, 0)),
                     Canon(FALSE, FALSE, Append(n, 5), -1), IntNode(StripLead(DigitVals(SelectSeq(read, IsDigit))))>>
     ELSE <<[v EXCEPT !.int = FALSE], Canon(FALSE, FALSE, Append(v.ds, 5), v.e - 1), Canon(FALSE, FALSE, v.ds, v.e + 1),
            IntNode(<<1>>), IntNode(<<>>)>>
Sure(v) == Mag(v) < 300 /\ Mag(v) > -300 /\ Len(v.ds) <= 15
Where(P(_)) == LET ns == Operands IN SelectSeq(MapN(LAMBDA i : i, Len(ns)), LAMBDA i : P(ns[i]))
Filter(op, P(_)) == [d |-> Numbered(Arr(Operands)), t |-> T("$[?(@ ") \o T(op) \o T(" ") \o read \o T(")]"),
                     p |-> Map(LAMBDA i : <<i>>, Where(P))]
Equal == Filter("==", LAMBDA n : NumCmp(n, Value) = 0)
Less == Filter("<", LAMBDA n : NumCmp(n, Value) = -1)
\* positions in an array of ten elements
Ten == Numbered(Arr(MapN(LAMBDA i : NulV, 10)))
Pos == Clamp(Value)
AsPosition == [d |-> Ten, t |-> T("$[") \o read \o T("]"), p |-> IF Pos < 10 THEN <<<<Pos + 1>>>> ELSE <<>>]
AsNegative == [d |-> Ten, t |-> T("$[-") \o read \o T("]"), p |-> IF Pos > 0 /\ Pos <= 10 THEN <<<<11 - Pos>>>> ELSE IF Pos = 0 THEN <<<<1>>>> ELSE <<>>]
AsFrom == [d |-> Ten, t |-> T("$[") \o read \o T(":]"), p |-> MapN(LAMBDA i : <<Pos + i>>, IF Pos < 10 THEN 10 - Pos ELSE 0)]
AsTo == [d |-> Ten, t |-> T("$[:") \o read \o T("]"), p |-> MapN(LAMBDA i : <<i>>, IF Pos < 10 THEN Pos ELSE 10)]
AsSlash == [AsPosition EXCEPT !.t = T("/") \o read]
AsDot == [AsPosition EXCEPT !.t = T("$.") \o read]
Printed ==
  /\ Complete /\ Sure(Value) => PrintT(ToJson(Equal)) /\ PrintT(ToJson(Less))
  /\ Complete /\ Value.int =>
       /\ PrintT(ToJson(AsPosition)) /\ PrintT(ToJson(AsFrom)) /\ PrintT(ToJson(AsTo))
       /\ (Pos > 0 => PrintT(ToJson(AsNegative)))
       /\ Len(read) <= 4 => PrintT(ToJson(AsSlash)) /\ PrintT(ToJson(AsDot))
=============================================================================
