------------------------------- MODULE MCBuild -------------------------------
(***************************************************************************)
(* Path builders, and the memory behind built paths.                       *)
(*                                                                         *)
(* Abstractly a built path is a list of elements (Builders).  Concretely   *)
(* it is two slices, one of selectors and one of flags.  With FRESH (as    *)
(* the library does it) Append makes new arrays, and RecursiveDescent new  *)
(* flags; without it they work in place, where there is room, and other    *)
(* paths change: cfg MCBuildShared.                                        *)
(*   Kept        every path is still what it was built as                  *)
(*   Compose     an appended path goes on from what the first part selects *)
(*   Neutral     appending nothing, or the empty path, changes nothing     *)
(*   Associates  and it does not matter how three paths are put together   *)
(*   Written     a built path means the same as its text, parsed           *)
(* Behaviours are lists of operations, and what all paths select in two    *)
(* documents (if that is specified).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Render, Builders

CONSTANT FRESH
Most == CASE IOEnv.SIZE = "1" -> 2 [] IOEnv.SIZE = "2" -> 3 [] IOEnv.SIZE = "3" -> 4 [] OTHER -> 3
Pool == IOEnv.POOL
Cap == 6

D1 == Numbered(Obj(<<"a", "0">>, <<Arr(<<Obj(<<"a">>, <<IntV(1)>>), IntV(2)>>), Obj(<<"b", "a">>, <<Arr(<<NulV>>), BoV(FALSE)>>)>>))
D2 == Numbered(Arr(<<Arr(<<IntV(1), Obj(<<"a">>, <<Arr(<<NulV>>)>>)>>), Obj(<<"a">>, <<Obj(<<"a">>, <<StrV("x")>>)>>)>>))
Docs == <<D1, D2>>

OpT(o, t) == [o |-> o, t |-> t, ix |-> 0, hs |-> <<>>]
OpI(i) == [o |-> "indexsel", t |-> <<>>, ix |-> i, hs |-> <<>>]
OpH(o, hs) == [o |-> o, t |-> <<>>, ix |-> 0, hs |-> hs]
Parses(s) == OpT("parse", T(s))
Starts ==
  CASE Pool = "few" -> {<<OpT("root", <<>>), OpT("keysel", T("a")), OpT("wild", <<>>)>>}
    [] Pool = "texts" -> {<<Parses(s), OpI(i), OpT("wild", <<>>)>> :
                            s \in {"$", "@", "$.a", "$..a", "$[0,a]", "$[?(@.a)]", "/a/*", "$.a[0:1]"}, i \in {0, -1}}
    [] OTHER -> {<<OpT("root", <<>>), OpT("wild", <<>>), OpT("cur", <<>>), OpT("empty", <<>>), OpT("keysel", T("a")), OpI(0), Parses(s)>> :
                   s \in {"$.a", "$..a", "$[?(@.a)]"}}
          \cup {<<OpT("root", <<>>), OpT("keysel", T("0")), OpI(-1), Parses("$..[0]")>>}

\* sels, flags: arrays; kept: built paths, as pairs of slices; abs: as lists
VARIABLES sels, flags, kept, abs, ops, base, phase
vars == <<sels, flags, kept, abs, ops, base, phase>>

Slice(a, n) == [arr |-> a, len |-> n]
View(m, s) == SubSeq(m[s.arr], 1, s.len)
Pad(p, x) == p \o [i \in 1..(Cap - Len(p)) |-> x]
Nobody == [sel |-> "none", parts |-> <<>>]
SelOf(e) == [sel |-> e.sel, parts |-> e.parts]
Both(k) == LET s == View(sels, k.s)
               f == View(flags, k.f)
           IN MapN(LAMBDA i : Elem(s[i].sel, s[i].parts, f[i]), k.s.len)

Made(op, ss, ff, k, l) ==
  /\ sels' = ss /\ flags' = ff
  /\ kept' = Append(kept, k)
  /\ abs' = Append(abs, l)
  /\ ops' = Append(ops, op)
  /\ UNCHANGED <<base, phase>>

\* a new path from nothing
New(op, l) == Made(op, Append(sels, Pad(Map(SelOf, l), Nobody)), Append(flags, Pad(Map(LAMBDA e : e.rec, l), FALSE)),
                   [s |-> Slice(Len(sels) + 1, Len(l)), f |-> Slice(Len(flags) + 1, Len(l))], l)
Given(op) == CASE op.o = "root" -> BRoot
               [] op.o = "cur" -> BCurrent
               [] op.o = "wild" -> BWild
               [] op.o = "empty" -> BEmpty
               [] op.o = "keysel" -> BKey(op.t)
               [] op.o = "indexsel" -> BIndex(IntText(op.ix), IntNum(op.ix))
               [] op.o = "parse" -> BParsed(ParsePath(op.t).path)

\* append the cells xs behind slice s of memory m: in place, if there is room
Extend(m, s, xs, none) ==
  IF ~FRESH /\ s.len + Len(xs) <= Cap
  THEN [m |-> [m EXCEPT ![s.arr] = SubSeq(@, 1, s.len) \o xs \o SubSeq(@, s.len + Len(xs) + 1, Cap)],
        s |-> Slice(s.arr, s.len + Len(xs))]
  ELSE [m |-> Append(m, Pad(View(m, s) \o xs, none)), s |-> Slice(Len(m) + 1, s.len + Len(xs))]

Length(hs) == FoldLeft(LAMBDA a, h : a + Len(abs[h]), 0, hs)
AppendOf(hs) ==
  /\ Length(hs) <= Cap
  /\ LET rest == Tail(hs)
         l == BAppend(Map(LAMBDA h : abs[h], hs))
         xs == Cat(Map(LAMBDA h : View(sels, kept[h].s), rest))
         fs == Cat(Map(LAMBDA h : View(flags, kept[h].f), rest))
         x == Extend(sels, kept[hs[1]].s, xs, Nobody)
         y == Extend(flags, kept[hs[1]].f, fs, FALSE)
     IN Made(OpH("append", hs), x.m, y.m, [s |-> x.s, f |-> y.s], l)
RecOf(h) ==
  LET k == kept[h]
      n == k.f.len
      f == View(flags, k.f)
      set == IF n = 0 THEN f ELSE [f EXCEPT ![n] = TRUE]
  IN IF FRESH THEN Made(OpH("rec", <<h>>), sels, Append(flags, Pad(set, FALSE)),
                        [s |-> k.s, f |-> Slice(Len(flags) + 1, n)], BRec(abs[h]))
     ELSE Made(OpH("rec", <<h>>), sels, IF n = 0 THEN flags ELSE [flags EXCEPT ![k.f.arr][n] = TRUE], k, BRec(abs[h]))

Room == Len(ops) < Len(base) + Most
Init == /\ sels = <<>> /\ flags = <<>> /\ kept = <<>> /\ abs = <<>> /\ ops = <<>>
        /\ base \in Starts /\ phase = "begin"
Begin == /\ Len(ops) < Len(base)
         /\ New(base[Len(ops) + 1], Given(base[Len(ops) + 1]))
Begun == Len(ops) >= Len(base)
Handles == 1..Len(kept)
\* three or no arguments at last only
Rare == Len(ops) = Len(base) + Most - 1 /\ Pool # "all"
Next == \/ Begin
        \/ /\ Begun /\ Room
           /\ \/ \E h \in Handles : RecOf(h)
              \/ \E h, i \in Handles : AppendOf(<<h, i>>)
              \/ Rare /\ \E h, i, j \in {1, Len(kept) - 1, Len(kept)} : AppendOf(<<h, i, j>>)
              \/ \E h \in {1, Len(kept)} : AppendOf(<<h>>)
              \/ New(OpH("append", <<>>), <<>>)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Kept == \A h \in Handles : Both(kept[h]) = abs[h]
Forever == [][\A h \in 1..Len(abs) : abs'[h] = abs[h]]_vars

Newest == abs[Len(abs)]
Selected(l, R) == Paths(Select(R, Meaning(l)))
\* wherever l is split, the rest goes on from what the first part selects
Split(l) == \A n \in 1..Len(l) : \A d \in 1..2 :
              LET first == [SubSeq(l, 1, n) EXCEPT ![n].rec = FALSE]
                  rest == Meaning(<<Elem("root", <<>>, l[n].rec)>> \o SubSeq(l, n + 1, Len(l)))
                  its == Select(Docs[d], Meaning(first)).r
              IN Selected(l, Docs[d]) = Cat(Map(LAMBDA it : Paths(Walk(Docs[d], it, rest.steps, 1)), its))
Compose == Begun /\ Meaningful(Newest) => Split(Newest)
Neutral == Begun => BAppend(<<Newest, <<>>>>) = Newest /\ BAppend(<<<<>>, Newest>>) = Newest /\ BAppend(<<Newest>>) = Newest
Associates == Begun => \A h, i \in {1, Len(abs)} : BAppend(<<BAppend(<<abs[h], abs[i]>>), Newest>>) = BAppend(<<abs[h], BAppend(<<abs[i], Newest>>)>>)
Written == Begun /\ Meaningful(Newest) =>
             LET m == Meaning(Newest)
                 q == ParsePath(Show(m, "single"))
             IN q.st = "ok" /\ \A d \in 1..2 : Paths(Select(Docs[d], q.path)) = Paths(Select(Docs[d], m))

Result(l) == IF Meaningful(l) THEN [known |-> TRUE, p |-> Map(LAMBDA d : Selected(l, d), Docs)]
             ELSE [known |-> FALSE, p |-> <<>>]
Printed == Begun /\ ~Room => PrintT(ToJson([ds |-> Docs, ops |-> ops, r |-> Map(Result, abs)]))
==============================================================================
