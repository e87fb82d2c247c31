------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Texts, typed token by token after one of several beginnings.  Every     *)
(* state is a text, and its verdict (accepted, refused, or not specified)  *)
(* is printed and replayed on Parse.  Checked for every text:              *)
(*   Munch      the tokens of the text, written one after the other, are   *)
(*              the text                                                   *)
(*   InGrammar  what the specification accepts is in the published grammar *)
(*   Blanks     longer blanks do not change the verdict or the path        *)
(*   Closed     an accepted text is not a beginning with an open bracket   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Render

Big == IOEnv.SIZE # "1"
Most == IF Big THEN 3 ELSE 2

VARIABLES text, n
vars == <<text, n>>

Beginnings == Map(T, <<"", "$", "@", "$[", "$[?(", "$[?(@.a", "$.a[0", "$..", "/", "/a", "$[?(@.a == ", "$[?(length(@)", "$[1:", "$[?([1,">>)
Common == {T(t) : t \in {".", "..", "[", "]", "(", ")", "?(", ",", ":", "*", "@", "$", "a", "0", "'k'", "==", "-", "!", "&&", "/", " "}}
Rare == {T(t) : t \in {"1.5", "+", "in", "null", "~", "|", "=", "#", "length", "**", "true", "===", "?", "0x1F", "\"", "&", "<", "%", "{", "\\", "^"}}
        \cup {<<TAB, LF>>, <<233>>, <<8364>>}
Closings == {T(t) : t \in {"]", ")", ")]", "a", "0"}}

Init == text \in SeqSet(Beginnings) /\ n = 0
Type == /\ n < Most
        /\ \E t \in (IF n = 0 \/ (Big /\ n = 1) THEN Common \cup Rare ELSE Common) : text' = text \o t
        /\ n' = n + 1
\* one more piece, which closes what is open
Close == /\ n \in 1..2
         /\ \E t \in Closings : text' = text \o t
         /\ n' = Most + 1
Next == Type \/ Close
Spec == Init /\ [][Next]_vars

Parsed == ParsePath(text)
Behaviour == [t |-> text, st |-> IF Parsed.st = "ok" THEN "accept" ELSE Parsed.st]
Printed == PrintT(ToJson(Behaviour))

Lexed == Lex(text)
Munch == LET tk == Lexed.toks
         IN Lexed.st = "ok" =>
              /\ Cat(Map(LAMBDA k : SubSeq(text, k.i, k.j), tk)) = text
              \* no token can be longer
              /\ \A i \in 1..Len(tk) : tk[i].j >= tk[i].i
              /\ \A i \in 1..(Len(tk) - 1) : tk[i + 1].i = tk[i].j + 1 /\ ~(tk[i].t = "sp" /\ tk[i + 1].t = "sp")
TypesOf(l) == Map(LAMBDA k : k.t, l.toks)
InGrammar == Parsed.st = "ok" => LET ty == TypesOf(Lexed) IN InPath(ty) \/ InSimplePath(ty) \/ text = T("/")
Wide == Cat(Map(LAMBDA k : IF k.t = "sp" THEN <<TAB, LF, SPC>> ELSE SubSeq(text, k.i, k.j), Lexed.toks))
Blanks == Lexed.st = "ok" /\ Wide # text =>
            LET q == ParsePath(Wide)
            IN q.st = Parsed.st /\ (q.st = "ok" => q.path = Parsed.path)
Count(ty, S) == Cardinality({i \in 1..Len(ty) : ty[i] \in S})
Closed == Parsed.st = "ok" => LET ty == TypesOf(Lexed)
                              IN /\ Count(ty, {"["}) = Count(ty, {"]"})
                                 /\ Count(ty, {"(", "?("}) = Count(ty, {")"})
=============================================================================
