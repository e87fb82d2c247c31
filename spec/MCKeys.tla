------------------------------- MODULE MCKeys -------------------------------
(***************************************************************************)
(* Names put into paths.  Lists of names are typed one character at a time *)
(* (or one word at a time), while a quoting machine writes them as string  *)
(* literals.  Checked in every state:                                      *)
(*   Open      the literal written so far cannot have ended                *)
(*   Faithful  closed, it is one literal that denotes the name             *)
(*   Joined    the names joined by slashes, after dots and in brackets are *)
(*             the path of the names                                       *)
(*   Addresses and it selects the member with these names, and nothing     *)
(*             else of a document full of similar names                    *)
(* A behaviour is a list of names, a document, and the position of the     *)
(* named member.  The library's own quoting must lead there.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Render

Big == IOEnv.SIZE # "1"
Most == IF Big THEN 3 ELSE 2

\* names: the finished names; cur: the one being typed; lit: its literal
VARIABLES names, cur, lit, typing
vars == <<names, cur, lit, typing>>

LSEP == 8232
Alphabet == {97, 49, MINUS, USC, 42, DQ, SQ, BSL, LF, CR, SLASH, 46, 91, 93, 36, 64, 32, 233, LSEP, 128512, 0, 9, 123, 110, 120, 117}
Words == Map(T, <<"in", "null", "true", "false", "length", "0", "00", "-1", "+1", "0x1", "1.5", "1e3", "a-b", "a b", "..", "$.a", "@.a", "*",
                  "?(@)", "[0]", "a.b", "''", "\\n", "\\u0041", "/", "//", "&&", "_", "A1">>)
FewWords == Map(T, <<"a", "", "*", "0", "in", "'", "a/b", "\\">>) \o <<<<LF>>, <<DQ, SQ>>>>

Init == names = <<>> /\ cur = <<>> /\ lit = <<>> /\ typing = FALSE
Begin == /\ ~typing
         /\ Len(names) < 3
         /\ typing' = TRUE /\ cur' = <<>> /\ lit' = <<DQ>>
         /\ UNCHANGED names
Put(s) == /\ cur' = cur \o s
          /\ lit' = lit \o Cat(Map(LAMBDA c : QuoteChar(c, DQ), s))
          /\ UNCHANGED <<names, typing>>
Type(c) == typing /\ names = <<>> /\ Len(cur) < Most /\ Put(<<c>>)
TypeWord(w) == typing /\ cur = <<>> /\ w # <<>> /\ Put(w)
Finish == /\ typing
          /\ names' = Append(names, cur)
          /\ typing' = FALSE /\ cur' = <<>> /\ lit' = <<>>
\* more than one name: only words
Pool == IF Len(names) = 0 THEN SeqSet(Words) ELSE SeqSet(FewWords) \cup (IF Big /\ Len(names) = 1 THEN SeqSet(Words) ELSE {})
\* a list goes on after a word
Listed(n) == n \in SeqSet(FewWords) \/ (Big /\ n \in SeqSet(Words))
Next == \/ Begin /\ (names # <<>> => \A i \in 1..Len(names) : Listed(names[i]))
        \/ \E c \in Alphabet : Type(c)
        \/ \E w \in Pool : TypeWord(w)
        \/ Finish /\ (Len(names) > 0 => cur \in Pool)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Open == typing => LexStr(lit, 2, DQ) = 0
Closed(s) == Quoted(s, DQ)
Faithful == typing => /\ Append(lit, DQ) = Closed(cur)
                      /\ LexStr(Append(lit, DQ), 2, DQ) = Len(lit) + 1
                      /\ Unescape(Append(lit, DQ)) = cur

Wanted == Path(TRUE, Map(LAMBDA n : Step1(KC(n)), names))
Slashes == IF names = <<>> THEN <<SLASH>> ELSE Cat(Map(LAMBDA n : <<SLASH>> \o Closed(n), names))
Dots == T("$") \o Cat(Map(LAMBDA n : T(".") \o Closed(n), names))
Brackets == T("$") \o Cat(Map(LAMBDA n : T("[") \o Quoted(n, SQ) \o T("]"), names))

\* names that a wrong quoting might lead to
Similar(n) ==
  LET no(C) == SelectSeq(n, LAMBDA c : c \notin C)
      q == Closed(n)
  IN SetToSeq(({Append(n, 97), no({BSL}), no({DQ, SQ}), SubSeq(q, 2, Len(q) - 1), q, Quoted(n, SQ), <<>>, T("n")}
              \cup (IF n = <<>> THEN {} ELSE {Tail(n), SubSeq(n, 1, Len(n) - 1)})) \ {n})
RECURSIVE DocOf(_)
DocOf(ns) == IF ns = <<>> THEN Arr(<<NulV>>)
             ELSE LET o == Similar(ns[1])
                  IN ObjC(<<o[1], ns[1]>> \o Tail(o),
                          <<NulV, DocOf(Tail(ns))>> \o Map(LAMBDA x : NulV, Tail(o)))
Doc == Numbered(DocOf(names))
Position == Map(LAMBDA n : 2, names)

Done == ~typing
Selects(text) == LET q == ParsePath(text)
                 IN q.st = "ok" /\ Paths(Select(Doc, q.path)) = <<Position>>
Joined == Done => \A t \in {Slashes, Dots, Brackets} : LET q == ParsePath(t) IN q.st = "ok" /\
                    Map(LAMBDA s : s.parts[1].nm, q.path.steps) = names
Addresses == Done => \A t \in {Slashes, Dots, Brackets} : Selects(t)
Printed == Done => PrintT(ToJson([ns |-> names, d |-> Doc, p |-> <<Position>>]))
=============================================================================
