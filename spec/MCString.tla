------------------------------ MODULE MCString ------------------------------
(***************************************************************************)
(* String literals, read one character at a time: a small automaton that   *)
(* knows the escape sequences.  TLC explores it for all bodies of a few    *)
(* characters of an alphabet that has all the kinds of characters there    *)
(* are.  Checked when the closing quote has been read:                     *)
(*   Agrees     the text that the automaton has built is the value of the  *)
(*              literal                                                    *)
(*   Stuck      it gets stuck exactly where the text is no literal         *)
(*   Requoted   the same text, written plainly in the other quotes, has    *)
(*              the same value                                             *)
(* The behaviours use the literal as a member name and as an operand.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Render

Big == IOEnv.SIZE # "1"
Most == IF Big THEN 4 ELSE 3

\* read: the literal so far; built: its text; mode: what comes next; digits:
\* hexadecimal digits read in an escape sequence
VARIABLES read, built, mode, digits
vars == <<read, built, mode, digits>>

LSEP == 8232
Alphabet == {97, 98, 110, 117, 120, 48, 52, 56, 123, 125, BSL, SQ, DQ, LF}
            \cup (IF Big THEN {233} ELSE {})
More == {116, 118, 102, 114, 95, CR, LSEP, 128512, 47, 65, 32, 233, 49}

Quote == read[1]
Body == SubSeq(read, 2, Len(read))

Init ==
  /\ read \in {<<SQ>>, <<DQ>>}
  /\ built = <<>>
  /\ mode = "text"
  /\ digits = <<>>

To(b, m, d) == built' = b /\ mode' = m /\ digits' = d
\* the last step of an escape sequence with a code
Coded(d) == To(Append(built, CodeOf(d)), "text", <<>>)

Read(c) ==
  /\ mode \notin {"closed", "stuck"}
  /\ read' = Append(read, c)
  /\ CASE mode = "text" ->
            IF c = Quote THEN To(built, "closed", <<>>)
            ELSE IF c = BSL THEN To(built, "escape", <<>>)
            ELSE IF c \in {LF, CR} THEN To(built, "stuck", <<>>)
            ELSE To(Append(built, c), "text", <<>>)
       [] mode = "escape" ->
            IF c = 120 THEN To(built, "x", <<>>)
            ELSE IF c = 117 THEN To(built, "u", <<>>)
            ELSE IF IsBreak(c) THEN To(built, "break", <<>>)
            ELSE IF c >= 49 /\ c <= 57 THEN To(built, "stuck", <<>>)
            ELSE To(Append(built, SingleEsc(c)), "text", <<>>)
       [] mode = "x" ->
            IF ~IsHexU(c) THEN To(built, "stuck", <<>>)
            ELSE IF Len(digits) = 1 THEN Coded(Append(digits, c))
            ELSE To(built, "x", Append(digits, c))
       [] mode = "u" ->
            IF digits = <<>> /\ c = LCUR THEN To(built, "brace", <<>>)
            ELSE IF ~IsHexU(c) THEN To(built, "stuck", <<>>)
            ELSE IF Len(digits) = 3 THEN Coded(Append(digits, c))
            ELSE To(built, "u", Append(digits, c))
       [] mode = "brace" ->
            IF c = RCUR /\ digits # <<>> THEN Coded(digits)
            ELSE IF ~IsHexU(c) THEN To(built, "stuck", <<>>)
            ELSE To(built, "brace", Append(digits, c))
       \* any number of line breaks after a backslash gives nothing
       [] mode = "break" ->
            IF IsBreak(c) THEN To(built, "break", <<>>)
            ELSE IF c = Quote THEN To(built, "closed", <<>>)
            ELSE IF c = BSL THEN To(built, "escape", <<>>)
            ELSE To(Append(built, c), "text", <<>>)

\* up to Most characters, and what it takes to finish an escape sequence
Allowed(c) ==
  LET k == Len(read) - 1
  IN IF k < Most THEN c \in Alphabet \cup (IF k <= 1 \/ (Big /\ k = 2) THEN More ELSE {})
     ELSE CASE mode \in {"text", "break"} -> c = Quote
            [] mode = "escape" -> c \in {Quote, 110}
            [] mode \in {"x", "u"} -> c \in {52, 97}
            [] mode = "brace" -> c \in {RCUR, 49}
            [] OTHER -> FALSE
Next == Len(read) < Most + 5 /\ \E c \in Alphabet \cup More \cup {49} : Allowed(c) /\ Read(c)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Known == StrKnown(built)
Agrees == mode = "closed" =>
            /\ LexStr(read, 2, Quote) = Len(read)
            /\ Unescape(read) = built
Stuck == mode = "stuck" => LexStr(Append(read, Quote), 2, Quote) = 0
Open == mode \notin {"closed", "stuck"} => LexStr(read, 2, Quote) = 0
\* plainly, in the other quotes
Other == IF Quote = SQ THEN DQ ELSE SQ
Writable == Known /\ \A i \in 1..Len(built) : built[i] >= 32 \/ built[i] \in {LF, CR}
Requoted == mode = "closed" /\ Writable => Unescape(Quoted(built, Other)) = built

StrC(s) == [k |-> "str", s |-> s]
\* texts that a careless reader would take the literal for
Decoys == LET body == SubSeq(read, 2, Len(read) - 1)
              no == SelectSeq(body, LAMBDA c : c # BSL)
          IN SetToSeq({body, no, <<>>, Append(built, 97), T("n"), T("u"), T("x")} \ {built})
AsKey == LET names == <<built>> \o Decoys
         IN [d |-> Numbered(ObjC(names, Map(LAMBDA x : NulV, names))), t |-> T("$[") \o read \o T("]"), p |-> <<<<1>>>>]
AsName == LET b == AsKey IN [b EXCEPT !.t = T("$.") \o read]
AsSlash == LET b == AsKey IN [b EXCEPT !.t = T("/") \o read]
AsOperand == LET texts == <<built>> \o Decoys
             IN [d |-> Numbered(Arr(Map(StrC, texts))), t |-> T("$[?(@ == ") \o read \o T(")]"), p |-> <<<<1>>>>]
Refused(t) == [t |-> t, st |-> "rej"]
\* what has not been closed yet, and could not be closed any more
Unfinished == T("$[") \o read \o T("]")
Printed ==
  /\ mode = "closed" /\ Known =>
        /\ PrintT(ToJson(AsKey))
        /\ PrintT(ToJson(AsOperand))
        /\ Len(read) <= 4 => PrintT(ToJson(AsName)) /\ PrintT(ToJson(AsSlash))
  /\ mode = "stuck" /\ ParsePath(Unfinished).st = "rej" => PrintT(ToJson(Refused(Unfinished)))
  /\ mode \notin {"closed", "stuck"} /\ Len(read) <= 3 => PrintT(ToJson(Refused(T("$[") \o read)))
=============================================================================
