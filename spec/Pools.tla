-------------------------------- MODULE Pools --------------------------------
(***************************************************************************)
(* The small scopes that MCSearch explores, by the property in focus and   *)
(* a size (1 quick, 2 and more thorough)                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, IOUtils, Render

Focus == IOEnv.FOCUS
Size == IOEnv.SIZE
Big == Size # "1"

NA == T("a")
NB == T("b")
PartSeq(S, n) == {<<p>> : p \in S} \cup (IF n > 1 THEN {<<p, q>> : p, q \in S} ELSE {})
StepsOver(P, recs) == {Step(r, ps) : r \in recs, ps \in P}
\* all paths with at most n of the steps S, and some beginnings
PathsOver(S, n) == {Path(TRUE, s \o <<>>) : s \in SeqUpTo(S, n)}
OneOf(ps) == {<<p>> : p \in ps}

\* paths in expressions
At0 == EP(FALSE, <<>>)
AtK(n) == EP(FALSE, <<Step1(K(n))>>)
Root0 == EP(TRUE, <<>>)
RootK(n) == EP(TRUE, <<Step1(K(n))>>)

Bounds == {None} \cup {N(i) : i \in IF Big THEN -4..4 ELSE -3..3}
BoundsB == {None, N(-1000000000), N(-2), N(1), N(1000000000)}
Steps0 == {None} \cup {N(i) : i \in IF Big THEN -3..3 ELSE {-2, -1, 0, 1, 2}}
Slices == {SL(x, y, z) : x \in Bounds, y \in Bounds, z \in Steps0}
FewSlices == {SL(None, N(1), None), SL(N(-2), None, None), SL(None, None, N(-1)), SL(N(1), N(0), N(-1))}
\* bounds that are computed from the array that is sliced, or are no numbers
LenAt == [x |-> "call", nm |-> LENGTH, args |-> <<At0>>]
Computed == {None, N(1), Bin("-", LenAt, N(1)), EP(FALSE, <<Step1(I(0))>>), RootK("n"), Lit(StrV("1")), Lit(StrV("x")), Lit(BoV(TRUE)), Lit(NulV)}
            \cup IF Big THEN {N(-2), Un("-", LenAt), EP(FALSE, <<Step1(W)>>), At0, EP(TRUE, <<Step1(I(0)), Step1(I(0))>>)} ELSE {}
ComputedSlices == {SL(x, y, z) : x, y \in Computed,
                                 z \in {None, N(-1), EP(FALSE, <<Step1(I(0))>>), Lit(NulV)} \cup IF Big THEN {N(2), RootK("n"), Un("-", LenAt)} ELSE {}}

Conditions ==
  {At0, AtK("a"), EP(FALSE, <<Step1(W)>>), EP(FALSE, <<Rec1(K("a"))>>), Un("!", At0), Un("!", AtK("a")),
   Lit(BoV(TRUE)), Lit(BoV(FALSE)), Lit(NulV), Lit(IntV(0)), Lit(StrV("")), Lit(StrV("x")), RootK("a"),
   Bin("&&", AtK("a"), AtK("b")), Bin("||", AtK("a"), AtK("b"))}
Inner(x) == EP(FALSE, <<Step1(F(x))>>)
\* conditions with inner filters, @ and $ at every depth
Nested ==
  {Inner(At0), Inner(AtK("a")), Inner(RootK("a")), Bin("&&", Inner(AtK("a")), AtK("a")),
   Bin("==", At0, RootK("a")), Bin("==", AtK("a"), RootK("a")), Bin("==", EP(FALSE, <<Step1(I(0))>>), EP(TRUE, <<Rec1(I(0))>>)),
   EP(TRUE, <<Step1(F(Bin("==", At0, RootK("a"))))>>),
   EP(TRUE, <<Step1(F(At0))>>), EP(FALSE, <<Rec1(F(Bin("==", At0, RootK("a"))))>>),
   Bin("==", EP(FALSE, <<Step1(F(At0))>>), EP(TRUE, <<Step1(F(At0))>>)),
   Bin("in", Lit(IntV(1)), At0), Bin("in", RootK("a"), At0), Bin("==", Lit(IntV(1)), At0), Bin("==", LenAt, Lit(IntV(1))), Inner(Bin("in", RootK("a"), At0)),
   Inner(Inner(At0)), Inner(Bin("==", At0, EP(TRUE, <<Step1(F(AtK("a")))>>)))}
  \cup {EP(FALSE, <<Step1(SL(N(0), Bin("-", [x |-> "call", nm |-> LENGTH, args |-> <<At0>>], N(1)), None))>>)}

Keys1 == {K("a"), K("b"), I(0), W}
Keys2 == {K("a"), K("b"), K("0"), K("-1"), I(0), I(1), I(-1), W}

L1 == {NulV}
L2 == {NulV, IntV(0)}
Truthy == {NulV, BoV(FALSE), IntV(0), StrV("")}

Docs ==
  CASE Focus = "C01" -> IF Big THEN DocsUpTo(L2, 2, 2, {NA, T("0")}) ELSE DocsUpTo(L1, 2, 2, {NA, T("0")})
    [] Focus = "C02" -> IF Big THEN DocsUpTo(L1, 3, 1, {NA}) \cup DocsUpTo(L1, 2, 2, {NA}) \cup DocsUpTo(L1, 1, 3, {NA, NB})
                        ELSE DocsUpTo(L1, 3, 1, {NA}) \cup DocsUpTo(L1, 2, 2, {NA})
    [] Focus = "C03" -> DocsUpTo(IF Big THEN L2 ELSE L1, 1, 3, {T("-1"), NA})
                        \cup Arrays(DocsUpTo(L1, 1, IF Big THEN 3 ELSE 2, {T("-1")}), 2)
    [] Focus = "C04" -> Arrays({NulV}, IF Big THEN 5 ELSE 4) \cup {Obj(<<"0", "a">>, <<NulV, NulV>>), StrV("abc"), Arr(<<Arr(<<NulV, NulV, NulV>>), NulV>>),
                                Arr(<<IntV(2), IntV(0), IntV(1)>>), Arr(<<IntV(-1), IntV(0), IntV(1), IntV(2)>>), Arr(<<StrV("-2"), StrV("x"), IntV(1)>>),
                                Arr(<<Arr(<<IntV(1), NulV, NulV>>), Arr(<<>>)>>), Obj(<<"n", "a">>, <<IntV(-1), Arr(<<IntV(0), IntV(1), IntV(2)>>)>>)}
    [] Focus = "C05" -> IF Big THEN DocsUpTo(L1, 2, 2, {NA, T("0")})
                        ELSE DocsUpTo(L2, 1, 3, {NA, T("0")}) \cup Arrays(DocsUpTo(L1, 1, 1, {NA}), 2) \cup Objects(DocsUpTo(L1, 1, 1, {NA}), 2, {NA, T("0")})
    [] Focus = "C06" -> LET C1 == Truthy \cup {Arr(<<>>), Obj(<<>>, <<>>), Obj(<<"a">>, <<NulV>>), Obj(<<"a">>, <<IntV(0)>>),
                                       Obj(<<"a", "b">>, <<IntV(1), StrV("")>>), Obj(<<"a", "b">>, <<BoV(FALSE), BoV(TRUE)>>),
                                       Arr(<<IntV(0)>>), Arr(<<IntV(0), IntV(0)>>), Obj(<<"b">>, <<Obj(<<"a">>, <<NulV>>)>>)}
                        IN IF Big THEN C1 \cup Containing(C1, 2, {NA, NB}) ELSE C1 \cup Arrays(C1, 2) \cup Objects(C1, 1, {NA, NB})
    [] Focus = "C07" -> LET C1 == {NulV, IntV(0), IntV(1), Arr(<<>>), Arr(<<IntV(0)>>), Obj(<<"a">>, <<IntV(0)>>), Obj(<<"a">>, <<IntV(1)>>),
                                   Arr(<<IntV(1), IntV(0)>>)}
                        IN IF Big THEN Arrays(C1, 3) \cup Objects(C1, 2, {NA, NB}) \cup {Obj(<<"a", "b">>, <<x, Arr(<<y, z>>)>>) : x, y, z \in C1}
                           ELSE {Arr(<<x, y>>) : x \in C1, y \in {IntV(0), Arr(<<IntV(1)>>), Obj(<<"a">>, <<IntV(1)>>)}}
                                \cup {Obj(<<"a", "b">>, <<x, y>>) : x \in {IntV(0), IntV(1), Arr(<<IntV(1), IntV(0)>>)}, y \in C1}
                                \cup {Obj(<<"a", "b">>, <<x, Arr(<<y, z>>)>>) : x \in {NulV, IntV(1)}, y \in {IntV(1), Obj(<<"a">>, <<IntV(1)>>)}, z \in C1}
    [] Focus = "C14" -> IF Big THEN DocsUpTo(L1, 2, 2, {NA, NB}) ELSE DocsUpTo(L1, 2, 2, {NA})
    [] Focus = "C16" -> LET C1 == {NulV, StrV("x"), IntV(2), Arr(<<>>), Obj(<<>>, <<>>), Arr(<<StrV("x"), NulV>>), Obj(<<"a">>, <<IntV(1)>>)}
                        IN C1 \cup Containing(C1, IF Big THEN 2 ELSE 1, {NA, T("0")}) \cup Arrays(C1, 2)
                           \cup {Obj(<<"a", "b">>, <<x, Arr(<<y>>)>>) : x, y \in C1}
    [] Focus = "C22" -> DocsUpTo(L1, 2, 2, {NA, T("0")})

Paths0 ==
  CASE Focus = "C01" -> PathsOver(StepsOver(OneOf(Keys1 \cup {I(1)}), {FALSE}), IF Big THEN 3 ELSE 2)
    [] Focus = "C02" -> {p \in PathsOver(StepsOver(OneOf({K("a"), I(0), W, SL(None, N(1), None), F(At0)} \cup IF Big THEN {F(AtK("a"))} ELSE {})
                                          \cup {<<K("a"), I(0)>>}, {TRUE, FALSE}), IF Big THEN 3 ELSE 2) :
                           \E i \in 1..Len(p.steps) : p.steps[i].rec}
    [] Focus = "C03" -> LET S == {I(i) : i \in -4..3} \cup {K("-1")}
                        IN PathsOver(StepsOver(OneOf(S), {FALSE}), IF Big THEN 2 ELSE 1)
                           \cup PathsOver(StepsOver(OneOf(S), {TRUE}), 1)
                           \cup PathsOver(StepsOver(PartSeq({I(-1), I(-2), I(0), I(-4)}, 2), {TRUE, FALSE}), 1)
                           \cup PathsOver(StepsOver(OneOf({F(EP(FALSE, <<Step1(s)>>)) : s \in S}), {TRUE, FALSE}), 1)
    [] Focus = "C04" -> PathsOver(StepsOver(OneOf(Slices), {TRUE, FALSE}), 1)
                        \cup PathsOver(StepsOver(OneOf({SL(x, y, z) : x, y \in BoundsB, z \in {None, N(1000000000), N(-1000000000), N(-1)}}), {FALSE}), 1)
                        \cup PathsOver(StepsOver(PartSeq(FewSlices, 2), {FALSE, TRUE}), 1)
                        \cup PathsOver(StepsOver(OneOf(ComputedSlices), {TRUE, FALSE}), 1)
    [] Focus = "C05" -> PathsOver(StepsOver(PartSeq({K("a"), K("0"), I(0), I(-1), W, SL(N(1), None, None), SL(None, None, N(-1)), F(At0), F(AtK("a"))}, 2), {TRUE, FALSE}), 1)
                        \cup (IF Big THEN {Path(TRUE, <<Step(FALSE, x), Step(FALSE, y)>>) : x, y \in PartSeq({K("a"), I(0), I(-1), W, SL(N(1), None, None)}, 2)} ELSE {})
    [] Focus = "C06" -> PathsOver(StepsOver(OneOf({F(x) : x \in Conditions}), {TRUE, FALSE}), 1)
    [] Focus = "C07" -> PathsOver(StepsOver(OneOf({F(x) : x \in Nested}), {TRUE, FALSE}), 1)
                        \cup {Path(TRUE, <<Step1(W), Step1(F(x))>>) : x \in Nested}
                        \cup {Path(TRUE, <<Step1(F(x)), Step1(F(y))>>) : x \in Nested, y \in {At0, Bin("==", At0, RootK("a"))}}
                        \cup {Path(FALSE, <<Step1(F(x))>>) : x \in Nested}
    [] Focus = "C14" -> PathsOver(StepsOver(OneOf({K("a"), I(-1), W, SL(None, None, N(-1)), F(At0)}) \cup {<<W, I(0)>>}, {TRUE, FALSE}), 2)
    [] Focus = "C16" -> LET cond == {At0, AtK("a"), Bin("==", At0, RootK("a")), Bin("<", At0, Lit(IntV(2))), Bin("in", At0, RootK("b")),
                                     Bin("in", At0, EP(TRUE, <<Rec1(W)>>)), Bin("+", AtK("a"), At0), Un("-", At0),
                                     [x |-> "call", nm |-> LENGTH, args |-> <<At0>>], Inner(At0), Bin("==", EP(FALSE, <<Step1(I(-1))>>), Lit(NulV))}
                            part == {K("a"), K("0"), I(0), I(-1), W, SL(None, None, N(-1)), SL(N(0), EP(FALSE, <<Step1(I(0))>>), None)} \cup {F(x) : x \in cond}
                        IN PathsOver(StepsOver(OneOf(part), {TRUE, FALSE}) \cup {Step1(W)}, 1)
                           \cup {Path(TRUE, <<Step(FALSE, <<x>>), Step(r, <<y>>)>>) : x \in {K("a"), W}, y \in part, r \in {TRUE, FALSE}}
                           \cup (IF Big THEN {Path(TRUE, <<Step(r, <<x, y>>)>>) : x, y \in part, r \in {TRUE, FALSE}} ELSE {})
    [] Focus = "C22" -> PathsOver(StepsOver(OneOf(Keys2 \cup {K("b c"), K("'"), K("\"")}), {FALSE}), IF Big THEN 2 ELSE 1)
                        \cup PathsOver(StepsOver(OneOf({K("a"), K("0"), I(0), I(-1), W}), {FALSE}), 2)
                        \cup (IF Big THEN PathsOver(StepsOver(OneOf(Keys2 \cup {K("b c")}), {TRUE, FALSE}), 2) ELSE {})

\* the slash notation cannot name a position and a member apart
StylesOf(p) ==
  IF Focus = "C22" THEN {s \in Styles : s = "slash" => SlashPath(p)} ELSE {"dot"}
=============================================================================
