------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexical level of the path language.  Texts are sequences of code    *)
(* points.  Lex(s) is the sequence of tokens by maximal munch, or says     *)
(* that the text has no tokenisation ("rej") or that this specification    *)
(* does not know ("unspec": code points beyond ASCII in a name whose       *)
(* Unicode class it does not list).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Num

\* Characters
TAB == 9   LF == 10   CR == 13   SPC == 32   BANG == 33  DQ == 34
DOLLAR == 36  PCT == 37  AMP == 38  SQ == 39  LPAR == 40  RPAR == 41
STAR == 42  PLUS == 43  COMMA == 44  MINUS == 45  DOT == 46  SLASH == 47
COLON == 58  LT == 60  EQ == 61  GT == 62  QM == 63  AT == 64
LBR == 91  BSL == 92  RBR == 93  CARET == 94  USC == 95
LCUR == 123  BAR == 124  RCUR == 125  TILDE == 126

IsDigit(c) == c >= 48 /\ c <= 57
IsDigitU(c) == IsDigit(c) \/ c = USC
IsAlpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
IsHexU(c) == IsHex(c) \/ c = USC
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IsBreak(c) == c \in {LF, CR, 8232, 8233}

\* Letters, marks, digits and connectors beyond ASCII, as far as listed here
IsLetterX(c) ==
  \/ c \in {170, 181, 186}
  \/ c >= 192 /\ c <= 591 /\ c \notin {215, 247}
  \/ c >= 913 /\ c <= 929
  \/ c >= 945 /\ c <= 969
  \/ c >= 1040 /\ c <= 1103
  \/ c >= 1488 /\ c <= 1514
  \/ c >= 12353 /\ c <= 12435
  \/ c >= 19968 /\ c <= 40869
  \/ c >= 44032 /\ c <= 55203
IsPartX(c) ==
  \/ c >= 768 /\ c <= 831          \* combining marks
  \/ c >= 1632 /\ c <= 1641        \* Arabic-Indic digits
  \/ c \in {8204, 8205, 8255}
\* surely not part of any name
IsForeign(c) ==
  \/ c >= 127 /\ c <= 169
  \/ c >= 171 /\ c <= 180
  \/ c \in {182, 183, 184, 185, 187, 188, 189, 190, 191, 215, 247}
  \/ c >= 8192 /\ c <= 8203
  \/ c >= 8208 /\ c <= 8238
  \/ c >= 8364 /\ c <= 8370
  \/ c >= 8592 /\ c <= 9000
  \/ c >= 57344 /\ c <= 63743       \* private use
  \/ c \in {65279, 65533}
  \/ c >= 128512 /\ c <= 128591

IsStart(c) == IsAlpha(c) \/ c = DOLLAR \/ c = USC \/ IsLetterX(c)
IsPart(c) == IsStart(c) \/ c = MINUS \/ IsDigit(c) \/ IsPartX(c)
\* outside of what is listed
IsUnknown(c) == c > 126 /\ ~IsLetterX(c) /\ ~IsPartX(c) /\ ~IsForeign(c)

At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

RECURSIVE SpanDigitU(_, _)
SpanDigitU(s, i) == IF i <= Len(s) /\ IsDigitU(s[i]) THEN SpanDigitU(s, i + 1) ELSE i
RECURSIVE SpanHexU(_, _)
SpanHexU(s, i) == IF i <= Len(s) /\ IsHexU(s[i]) THEN SpanHexU(s, i + 1) ELSE i
RECURSIVE SpanOctU(_, _)
SpanOctU(s, i) == IF i <= Len(s) /\ (s[i] = USC \/ (s[i] >= 48 /\ s[i] <= 55))
                  THEN SpanOctU(s, i + 1) ELSE i
RECURSIVE SpanBinU(_, _)
SpanBinU(s, i) == IF i <= Len(s) /\ s[i] \in {48, 49, USC} THEN SpanBinU(s, i + 1) ELSE i
RECURSIVE SpanSp(_, _)
SpanSp(s, i) == IF i <= Len(s) /\ s[i] \in {SPC, LF, CR, TAB} THEN SpanSp(s, i + 1) ELSE i
RECURSIVE SpanPart(_, _)
SpanPart(s, i) == IF i <= Len(s) /\ IsPart(s[i]) THEN SpanPart(s, i + 1) ELSE i

\* A token: type, first and last position.  Names with \u escapes and
\* names next to unknown code points have type "?"
Tok(t, i, j) == [t |-> t, i |-> i, j |-> j]

Kw(s, i, j) ==
  LET w == SubSeq(s, i, j) IN
  CASE w = <<DOLLAR>> -> "$"
    [] w = <<105, 110>> -> "in"
    [] w = <<110, 117, 108, 108>> -> "null"
    [] w = <<116, 114, 117, 101>> -> "bool"
    [] w = <<102, 97, 108, 115, 101>> -> "bool"
    [] OTHER -> "id"

LexName(s, i) ==
  LET j == SpanPart(s, i) IN
  IF j <= Len(s) /\ (IsUnknown(s[j]) \/ s[j] = BSL) THEN Tok("?", i, j)
  ELSE Tok(Kw(s, i, j - 1), i, j - 1)

LexExp(s, i) ==    \* end of an exponent part starting at i, or i
  IF At(s, i) \in {69, 101}
  THEN LET k == IF At(s, i + 1) \in {PLUS, MINUS} THEN i + 2 ELSE i + 1
           j == SpanDigitU(s, k)
       IN IF j > k THEN j ELSE i
  ELSE i

LexNumber(s, i) ==
  IF s[i] = 48 /\ At(s, i + 1) \in {88, 120} /\ IsHex(At(s, i + 2))
  THEN Tok("hex", i, SpanHexU(s, i + 2) - 1)
  ELSE IF s[i] = 48 /\ At(s, i + 1) \in {79, 111} /\ At(s, i + 2) >= 48 /\ At(s, i + 2) <= 55
  THEN Tok("oct", i, SpanOctU(s, i + 2) - 1)
  ELSE IF s[i] = 48 /\ At(s, i + 1) \in {66, 98} /\ At(s, i + 2) \in {48, 49}
  THEN Tok("bin", i, SpanBinU(s, i + 2) - 1)
  ELSE LET j == SpanDigitU(s, i)
           f == IF At(s, j) = DOT /\ IsDigit(At(s, j + 1)) THEN SpanDigitU(s, j + 1) ELSE j
       IN Tok("dec", i, LexExp(s, f) - 1)

RECURSIVE SpanBreak(_, _)
SpanBreak(s, i) == IF i <= Len(s) /\ IsBreak(s[i]) THEN SpanBreak(s, i + 1) ELSE i

\* position after an escape sequence whose backslash is at i, or 0
EscEnd(s, i) ==
  LET c == At(s, i + 1) IN
  CASE c = -1 -> 0
    [] c \in {CR, LF, 8232, 8233} -> SpanBreak(s, i + 1)
    [] c = 120 -> IF IsHexU(At(s, i + 2)) /\ IsHexU(At(s, i + 3)) THEN i + 4 ELSE 0
    [] c = 117 -> IF At(s, i + 2) = LCUR
                  THEN LET j == SpanHexU(s, i + 3)
                       IN IF j > i + 3 /\ At(s, j) = RCUR THEN j + 1 ELSE 0
                  ELSE IF \A d \in 2..5 : IsHexU(At(s, i + d)) THEN i + 6 ELSE 0
    [] c >= 49 /\ c <= 57 -> 0
    [] OTHER -> i + 2

\* position of the closing quote of the string whose text starts at i, or 0
LexStr(s, i, q) ==
  LET step(a, k) ==     \* a: next position to look at and the result, -1 if open
        IF a.r # -1 \/ k < a.n THEN a
        ELSE IF s[k] = q THEN [n |-> k, r |-> k]
        ELSE IF s[k] \in {CR, LF} THEN [n |-> k, r |-> 0]
        ELSE IF s[k] = BSL THEN LET j == EscEnd(s, k)
                                IN IF j = 0 THEN [n |-> k, r |-> 0] ELSE [n |-> j, r |-> -1]
        ELSE [n |-> k + 1, r |-> -1]
      f == FoldLeftDomain(step, [n |-> i, r |-> -1], s)
  IN IF f.r = -1 THEN 0 ELSE f.r

Err(i) == Tok("!err", i, i)

LexTok(s, i) ==
  LET c == s[i]
      c2 == At(s, i + 1)
      c3 == At(s, i + 2)
  IN
  CASE c = DOT -> IF c2 = DOT THEN IF c3 = DOT THEN Tok("...", i, i + 2) ELSE Tok("..", i, i + 1)
                  ELSE Tok(".", i, i)
    [] IsStart(c) -> LexName(s, i)
    [] IsDigit(c) -> LexNumber(s, i)
    [] c \in {SPC, LF, CR, TAB} -> Tok("sp", i, SpanSp(s, i) - 1)
    [] c \in {DQ, SQ} -> LET j == LexStr(s, i + 1, c) IN IF j = 0 THEN Err(i) ELSE Tok("str", i, j)
    [] c = LBR -> Tok("[", i, i)
    [] c = RBR -> Tok("]", i, i)
    [] c = LPAR -> Tok("(", i, i)
    [] c = RPAR -> Tok(")", i, i)
    [] c = COMMA -> Tok(",", i, i)
    [] c = COLON -> Tok(":", i, i)
    [] c = AT -> Tok("@", i, i)
    [] c = SLASH -> Tok("/", i, i)
    [] c = PLUS -> Tok("+", i, i)
    [] c = MINUS -> Tok("-", i, i)
    [] c = TILDE -> Tok("~", i, i)
    [] c = PCT -> Tok("%", i, i)
    [] c = CARET -> Tok("^", i, i)
    [] c = STAR -> IF c2 = STAR THEN Tok("**", i, i + 1) ELSE Tok("*", i, i)
    [] c = BANG -> IF c2 = EQ THEN IF c3 = EQ THEN Tok("!==", i, i + 2) ELSE Tok("!=", i, i + 1)
                   ELSE Tok("!", i, i)
    [] c = EQ -> IF c2 = EQ THEN IF c3 = EQ THEN Tok("===", i, i + 2) ELSE Tok("==", i, i + 1)
                 ELSE Err(i)
    [] c = LT -> IF c2 = EQ THEN Tok("<=", i, i + 1) ELSE Tok("<", i, i)
    [] c = GT -> IF c2 = EQ THEN Tok(">=", i, i + 1) ELSE Tok(">", i, i)
    [] c = AMP -> IF c2 = AMP THEN Tok("&&", i, i + 1) ELSE Tok("&", i, i)
    [] c = BAR -> IF c2 = BAR THEN Tok("||", i, i + 1) ELSE Tok("|", i, i)
    [] c = QM -> IF c2 = LPAR THEN Tok("?(", i, i + 1) ELSE Err(i)
    [] c = BSL -> Tok("?", i, i)
    [] IsUnknown(c) -> Tok("?", i, i)
    [] OTHER -> Err(i)

Lex(s) ==
  LET step(a, k) ==     \* a: status, next position, tokens
        IF a.st # "ok" \/ k < a.n THEN a
        ELSE LET t == LexTok(s, k)
             IN IF t.t = "!err" THEN [a EXCEPT !.st = "rej"]
                ELSE IF t.t = "?" THEN [a EXCEPT !.st = "unspec"]
                ELSE [st |-> "ok", n |-> t.j + 1, toks |-> Append(a.toks, t)]
  IN FoldLeftDomain(step, [st |-> "ok", n |-> 1, toks |-> <<>>], s)

---------------------------------------------------------------------------
(* The values of literals *)

SingleEsc(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10
                  [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11
                  [] c = 48 -> 0 [] OTHER -> c

\* a code point from hexadecimal digits, or -1
CodeOf(d) == IF \E i \in 1..Len(d) : d[i] = USC THEN -1
             ELSE LET n == StripLead(Map(HexVal, d))
                      v == IF Len(n) > 6 THEN -1
                           ELSE LET f[i \in 0..Len(n)] == IF i = 0 THEN 0 ELSE f[i-1] * 16 + n[i]
                                IN f[Len(n)]
                  IN IF v > 1114111 \/ (v >= 55296 /\ v <= 57343) THEN -1 ELSE v

\* the text of the string literal s (with its quotes); has -1 where unknown
Unescape(s) ==
  LET step(a, k) ==     \* a: next position, text
        IF k < a.n \/ k = Len(s) THEN a
        ELSE IF s[k] # BSL THEN [n |-> k + 1, t |-> Append(a.t, s[k])]
        ELSE LET c == s[k + 1]
                 j == EscEnd(s, k)
             IN [n |-> j,
                 t |-> CASE c = 120 -> Append(a.t, CodeOf(SubSeq(s, k + 2, k + 3)))
                         [] c = 117 -> Append(a.t,
                              IF s[k + 2] = LCUR THEN CodeOf(SubSeq(s, k + 3, j - 2))
                              ELSE CodeOf(SubSeq(s, k + 2, k + 5)))
                         [] IsBreak(c) -> a.t
                         [] OTHER -> Append(a.t, SingleEsc(c))]
  IN FoldLeftDomain(step, [n |-> 2, t |-> <<>>], s).t

StrOf(s, t) == Unescape(SubSeq(s, t.i, t.j))
StrKnown(x) == \A i \in 1..Len(x) : x[i] # -1

NoUsc(w) == SelectSeq(w, LAMBDA c : c # USC)
DigitVals(w) == Map(HexVal, w)

\* the decimal number spelled by w: digits [. digits] [e [sign] digits]
DecOf(w) ==
  LET IsE(c) == c \in {69, 101}
      idx(P(_)) == IF \E i \in 1..Len(w) : P(w[i])
                   THEN CHOOSE i \in 1..Len(w) : P(w[i]) /\ \A j \in 1..(i-1) : ~P(w[j])
                   ELSE Len(w) + 1
      ei == idx(IsE)
      di == MinI(ei, idx(LAMBDA c : c = DOT))
      ip == SubSeq(w, 1, di - 1)
      fp == IF di < ei THEN SubSeq(w, di + 1, ei - 1) ELSE <<>>
      ds == DigitVals(ip) \o DigitVals(fp)
      es == SubSeq(w, ei + 1, Len(w))
      eneg == es # <<>> /\ es[1] = MINUS
      ed == StripLead(DigitVals(IF es # <<>> /\ es[1] \in {PLUS, MINUS} THEN Tail(es) ELSE es))
      ev == IF Len(ed) > 5 THEN 99999 ELSE IntOf(ed)
  IN IF ei <= Len(w) /\ (es = <<>> \/ (Len(es) = 1 /\ es[1] \in {PLUS, MINUS})) THEN Bad
     ELSE IF ei > Len(w) /\ di > Len(w) THEN IntLiteral(ds)
     ELSE Canon(FALSE, FALSE, ds, (IF eneg THEN -ev ELSE ev) - Len(fp))

NumOf(s, t) ==
  LET w == NoUsc(SubSeq(s, t.i, t.j)) IN
  CASE t.t = "dec" -> DecOf(w)
    [] t.t = "hex" -> IntLiteral(NatBase(DigitVals(SubSeq(w, 3, Len(w))), 16))
    [] t.t = "oct" -> IntLiteral(NatBase(DigitVals(SubSeq(w, 3, Len(w))), 8))
    [] t.t = "bin" -> IntLiteral(NatBase(DigitVals(SubSeq(w, 3, Len(w))), 2))

NumTypes == {"dec", "hex", "oct", "bin"}
============================================================================
