-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact decimal numbers of any magnitude, and the arithmetic of filter    *)
(* expressions on them.                                                    *)
(*                                                                         *)
(* A number is a record                                                    *)
(*    [k |-> "num", int, neg, ds, e]                                       *)
(* with value (-1)^neg * ds * 10^e, where ds is a sequence of decimal      *)
(* digits, most significant first, without leading and trailing zeros.     *)
(* Zero has ds = <<>>, neg = FALSE, e = 0.  "int" is the representation:   *)
(* a machine integer (TRUE) or a decimal (FALSE).  TLC's own integers are  *)
(* 32 bits wide, so they only ever hold digits and positions.              *)
(*                                                                         *)
(* Results that depend on rounding or on overflow are Bad: the             *)
(* specification says nothing about them.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Bad == [k |-> "bad"]

\* [i \in 1..n |-> f(i)] and [i \in 1..Len(s) |-> f(s[i])] as tuples: TLC may
\* evaluate a function again whenever it is applied, but a tuple only once
MapN(f(_), n) == FoldLeft(LAMBDA a, i : Append(a, f(i)), <<>>, [i \in 1..n |-> i])
Map(f(_), s) == FoldLeft(LAMBDA a, x : Append(a, f(x)), <<>>, s)

---------------------------------------------------------------------------
(* Naturals as digit sequences, most significant digit first *)

RECURSIVE StripLead(_)
StripLead(d) == IF d # <<>> /\ d[1] = 0 THEN StripLead(Tail(d)) ELSE d

RECURSIVE TrailZeros(_, _)
TrailZeros(d, n) == IF n < Len(d) /\ d[Len(d) - n] = 0
                    THEN TrailZeros(d, n + 1) ELSE n

Zeros(n) == MapN(LAMBDA i : 0, n)

RECURSIVE NatOf(_)
NatOf(i) == IF i = 0 THEN <<>> ELSE Append(NatOf(i \div 10), i % 10)

RECURSIVE IntOfR(_, _, _)
IntOfR(d, i, acc) == IF i > Len(d) THEN acc ELSE IntOfR(d, i + 1, acc * 10 + d[i])
\* only for at most 9 digits
IntOf(d) == IntOfR(d, 1, 0)

\* fits TLC's integers
Small(d) == Len(d) <= 9

\* digit of weight 10^i
Dig(d, i) == IF i < Len(d) THEN d[Len(d) - i] ELSE 0

MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

RECURSIVE NatAddR(_, _, _, _, _, _)
NatAddR(a, b, i, n, c, acc) ==
  IF i > n THEN acc
  ELSE LET s == Dig(a, i) + Dig(b, i) + c
       IN NatAddR(a, b, i + 1, n, s \div 10, <<s % 10>> \o acc)
NatAdd(a, b) == IF Small(a) /\ Small(b) THEN NatOf(IntOf(a) + IntOf(b)) ELSE StripLead(NatAddR(a, b, 0, MaxI(Len(a), Len(b)), 0, <<>>))

RECURSIVE NatSubR(_, _, _, _, _, _)
NatSubR(a, b, i, n, c, acc) ==
  IF i > n THEN acc
  ELSE LET s == Dig(a, i) - Dig(b, i) - c
       IN NatSubR(a, b, i + 1, n, IF s < 0 THEN 1 ELSE 0,
                  <<IF s < 0 THEN s + 10 ELSE s>> \o acc)
\* a >= b
NatSub(a, b) == IF Small(a) /\ Small(b) THEN NatOf(IntOf(a) - IntOf(b)) ELSE StripLead(NatSubR(a, b, 0, Len(a), 0, <<>>))

RECURSIVE SeqCmpR(_, _, _)
SeqCmpR(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE SeqCmpR(a, b, i + 1)
\* lexicographic
SeqCmp(a, b) == SeqCmpR(a, b, 1)

NatCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1
                ELSE SeqCmp(a, b)

RECURSIVE NatScaleR(_, _, _, _, _)
NatScaleR(a, f, i, c, acc) ==
  IF i >= Len(a) THEN NatOf(c) \o acc
  ELSE LET s == Dig(a, i) * f + c
       IN NatScaleR(a, f, i + 1, s \div 10, <<s % 10>> \o acc)
\* times a small factor
NatScale(a, f) == IF f = 0 THEN <<>> ELSE NatScaleR(a, f, 0, 0, <<>>)

RECURSIVE NatMulR(_, _, _, _)
NatMulR(a, b, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE NatMulR(a, b, i + 1,
               StripLead(NatAdd(Append(acc, 0), NatScale(a, b[i]))))
NatMul(a, b) == IF Len(a) + Len(b) <= 9 THEN NatOf(IntOf(a) * IntOf(b))
                ELSE IF a = <<>> THEN <<>> ELSE StripLead(NatMulR(a, b, 1, <<>>))

RECURSIVE QDigit(_, _, _)
QDigit(r, b, q) == IF NatCmp(r, b) < 0 THEN <<q, r>>
                   ELSE QDigit(NatSub(r, b), b, q + 1)

RECURSIVE NatDivR(_, _, _, _, _)
NatDivR(a, b, i, q, r) ==
  IF i > Len(a) THEN <<StripLead(q), r>>
  ELSE LET s == QDigit(StripLead(Append(r, a[i])), b, 0)
       IN NatDivR(a, b, i + 1, Append(q, s[1]), s[2])
\* <<quotient, remainder>>, b # 0
NatDiv(a, b) == IF Small(a) /\ Small(b)
                THEN LET x == IntOf(a)  y == IntOf(b)
                     IN <<NatOf(x \div y), NatOf(x % y)>>
                ELSE NatDivR(a, b, 1, <<>>, <<>>)

RECURSIVE NatPow(_, _)
NatPow(a, n) == IF n = 0 THEN <<1>> ELSE NatMul(a, NatPow(a, n - 1))

RECURSIVE NatBaseR(_, _, _, _)
NatBaseR(vals, base, i, acc) ==
  IF i > Len(vals) THEN acc
  ELSE NatBaseR(vals, base, i + 1, NatAdd(NatScale(acc, base), NatOf(vals[i])))
\* the natural spelled by digit values in a base up to 16
NatBase(vals, base) == NatBaseR(vals, base, 1, <<>>)

---------------------------------------------------------------------------
(* Numbers *)

Canon(int, neg, ds, e) ==
  LET d == StripLead(ds)
      z == TrailZeros(d, 0)
  IN IF d = <<>> THEN [k |-> "num", int |-> int, neg |-> FALSE, ds |-> <<>>, e |-> 0]
     ELSE [k |-> "num", int |-> int, neg |-> neg,
           ds |-> SubSeq(d, 1, Len(d) - z), e |-> e + z]

Zero == Canon(TRUE, FALSE, <<>>, 0)
IntNum(i) == Canon(TRUE, i < 0, NatOf(IF i < 0 THEN -i ELSE i), 0)

IsZero(n) == n.ds = <<>>
\* number of digits before the decimal point
Mag(n) == Len(n.ds) + n.e
Integral(n) == n.e >= 0
Neg(n) == [n EXCEPT !.neg = IF IsZero(n) THEN FALSE ELSE ~n.neg]

\* The digits of an integral number
IntDigits(n) == n.ds \o Zeros(n.e)
\* the magnitude times 10^s, for e + s >= 0
Shifted(n, s) == IF IsZero(n) THEN <<>> ELSE n.ds \o Zeros(n.e + s)

MaxInt64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MinInt64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
FitsInt(neg, ds) == NatCmp(StripLead(ds), IF neg THEN MinInt64 ELSE MaxInt64) <= 0

\* Literals that do not fit a machine integer are decimals
IntLiteral(ds) == Canon(FitsInt(FALSE, ds), FALSE, ds, 0)

\* An integral number as a TLC integer, limited to +-10^9
Clamp(n) == IF IsZero(n) THEN 0
            ELSE LET m == IF Mag(n) > 9 THEN 1000000000 ELSE IntOf(IntDigits(n))
                 IN IF n.neg THEN -m ELSE m

(* -1, 0, 1, or 2 when the answer depends on the precision of decimals *)
TruncCmp(a, b) ==
  LET m == MaxI(Mag(a), Mag(b))
      lead(x) == StripLead(MapN(LAMBDA i :
                   LET j == i - (m - Mag(x)) IN IF j >= 1 /\ j <= Len(x.ds) THEN x.ds[j] ELSE 0, 14))
      c == NatCmp(lead(a), lead(b))
      d == IF c >= 0 THEN NatSub(lead(a), lead(b)) ELSE NatSub(lead(b), lead(a))
  IN IF NatCmp(d, <<2>>) <= 0 THEN 2 ELSE c

AbsCmp(a, b) ==
  IF IsZero(a) \/ IsZero(b)
  THEN IF IsZero(a) /\ IsZero(b) THEN 0
       ELSE IF Mag(a) < -300 \/ Mag(b) < -300 THEN 2
       ELSE IF IsZero(a) THEN -1 ELSE 1
  ELSE IF a.ds = b.ds /\ a.e = b.e THEN 0
  ELSE IF Mag(a) > 308 /\ Mag(b) > 308 THEN 2
  ELSE IF Mag(a) < -300 /\ Mag(b) < -300 THEN 2
  ELSE IF ~(a.int /\ b.int) /\ (Len(a.ds) > 15 \/ Len(b.ds) > 15)
       THEN IF Mag(a) > Mag(b) + 1 THEN 1
            ELSE IF Mag(b) > Mag(a) + 1 THEN -1
            ELSE TruncCmp(a, b)
  ELSE IF Mag(a) # Mag(b) THEN IF Mag(a) < Mag(b) THEN -1 ELSE 1
  ELSE SeqCmp(a.ds, b.ds)

NumCmp(a, b) ==
  IF a.neg # b.neg /\ ~IsZero(a) /\ ~IsZero(b)
  THEN IF a.neg THEN -1 ELSE 1
  ELSE LET c == AbsCmp(a, b)
           neg == IF IsZero(a) THEN b.neg ELSE a.neg
       IN IF c = 2 \/ c = 0 THEN c ELSE IF neg THEN -c ELSE c

---------------------------------------------------------------------------
(* Arithmetic *)

Five(n) == IF n <= 13 THEN NatOf(5 ^ n) ELSE NatPow(<<5>>, n)
Two(n) == IF n <= 30 THEN NatOf(2 ^ n) ELSE NatPow(<<2>>, n)

RECURSIVE Factors(_, _)
\* how often f divides n > 0
Factors(n, f) == IF n % f = 0 THEN 1 + Factors(n \div f, f) ELSE 0

\* x / y as <<digits, exponent>> if that is a finite decimal, else <<>>
SmallDiv(x, y) ==
  LET i == Factors(y, 2)
      j == Factors(y, 5)
      k == IF i > j THEN i ELSE j
      m == (y \div (2 ^ i)) \div (5 ^ j)
  IN IF x % m # 0 THEN <<>>
     ELSE <<NatMul(NatMul(NatOf(x \div m), Two(k - i)), Five(k - j)), -k>>

\* Decimals that are surely represented exactly
Exact(n) ==
  \/ IsZero(n)
  \/ /\ Mag(n) <= 15
     /\ Len(n.ds) <= 15
     /\ n.e >= -20
     /\ n.e >= 0 \/ NatDiv(n.ds, Five(-n.e))[2] = <<>>

IntResult(neg, ds) ==
  IF FitsInt(neg, ds) THEN Canon(TRUE, neg, ds, 0) ELSE Bad
DecResult(neg, ds, e) ==
  LET r == Canon(FALSE, neg, ds, e) IN IF Exact(r) THEN r ELSE Bad

\* signed sum of magnitudes: <<neg, digits>>
SumMag(na, a, nb, b) ==
  IF na = nb THEN <<na, NatAdd(a, b)>>
  ELSE IF NatCmp(a, b) >= 0 THEN <<na, NatSub(a, b)>>
  ELSE <<nb, NatSub(b, a)>>

Scale2(a, b) == LET m == MinI(a.e, b.e) IN IF m > 0 THEN 0 ELSE -m

NumAdd(a, b) ==
  IF a.int /\ b.int
  THEN LET r == SumMag(a.neg, StripLead(IntDigits(a)), b.neg, StripLead(IntDigits(b)))
       IN IntResult(r[1], r[2])
  ELSE IF ~Exact(a) \/ ~Exact(b) THEN Bad
  ELSE LET s == Scale2(a, b)
           r == SumMag(a.neg, Shifted(a, s), b.neg, Shifted(b, s))
       IN DecResult(r[1], r[2], -s)

NumSub(a, b) == NumAdd(a, Neg(b))

NumMul(a, b) ==
  IF a.int /\ b.int
  THEN IntResult(a.neg # b.neg, NatMul(IntDigits(a), IntDigits(b)))
  ELSE IF ~Exact(a) \/ ~Exact(b) THEN Bad
  ELSE DecResult(a.neg # b.neg, NatMul(a.ds, b.ds), a.e + b.e)

\* b # 0
NumDiv(a, b) ==
  IF a.int /\ b.int
  THEN IntResult(a.neg # b.neg, NatDiv(IntDigits(a), IntDigits(b))[1])
  ELSE IF ~Exact(a) \/ ~Exact(b) THEN Bad
  ELSE LET s == Scale2(a, b)
           q == NatDiv(Shifted(a, s) \o Zeros(18), Shifted(b, s))
           sd == SmallDiv(IntOf(a.ds), IntOf(b.ds))
       IN IF IsZero(a) THEN Canon(FALSE, FALSE, <<>>, 0)
          ELSE IF Small(a.ds) /\ Small(b.ds)
          THEN IF sd = <<>> THEN Bad
               ELSE DecResult(a.neg # b.neg, sd[1], a.e - b.e + sd[2])
          ELSE IF q[2] # <<>> THEN Bad
          ELSE DecResult(a.neg # b.neg, q[1], -18)

\* b # 0, the sign is the sign of the dividend
NumMod(a, b) ==
  IF a.int /\ b.int
  THEN IntResult(a.neg, NatDiv(IntDigits(a), IntDigits(b))[2])
  ELSE IF ~Exact(a) \/ ~Exact(b) THEN Bad
  ELSE LET s == Scale2(a, b)
       IN DecResult(a.neg, NatDiv(Shifted(a, s), Shifted(b, s))[2], -s)

NumPow(a, b) ==
  IF ~Exact(a) \/ ~Exact(b) THEN Bad
  ELSE IF IsZero(b) THEN Canon(FALSE, FALSE, <<1>>, 0)
  ELSE IF ~Integral(b) \/ Mag(b) > 2 \/ b.neg
  THEN IF Integral(b) /\ b.neg /\ IntDigits(b) = <<1>> /\ ~IsZero(a)
       THEN NumDiv([Canon(FALSE, FALSE, <<1>>, 0) EXCEPT !.int = FALSE], [a EXCEPT !.int = FALSE])
       ELSE Bad
  ELSE LET n == IntOf(IntDigits(b))
       IN IF IsZero(a) THEN Canon(FALSE, FALSE, <<>>, 0)
          ELSE IF (n > 50 /\ a.ds # <<1>>) \/ (Len(a.ds) - 1) * n > 20 THEN Bad
          ELSE DecResult(a.neg /\ n % 2 = 1, NatPow(a.ds, n), a.e * n)
============================================================================
