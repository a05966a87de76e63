------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexical grammar of Cairo-M (property C10): a scanner that stands at *)
(* a position of the source and, in each step, skips a run of white space  *)
(* or a comment, takes the longest lexeme that starts there, or reports    *)
(* the character as an error.                                              *)
(*                                                                         *)
(* Lexemes are defined declaratively: Lex(s, i, j) says that the text from *)
(* i to j-1 is a lexeme.  The scanner's way of finding the longest one is  *)
(* checked against that definition (MaximalMunch).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Alphabet, MaxLen, Sim
VARIABLES src, p, toks, done
vars == <<src, p, toks, done>>

Ch(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE "EOF"
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
            "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "_"}
White == {" ", "TAB", "NL", "CR"}
Word == Letters \cup Digits
Two == {<<"&", "&">>, <<"|", "|">>, <<"=", "=">>, <<"!", "=">>, <<"<", "=">>, <<">", "=">>, <<"-", ">">>, <<":", ":">>}
One == {"!", "&", "|", "^", "<", ">", "+", "-", "*", "/", "%", "=", "(", ")", "{", "}", "[", "]", ",", ";", ":", "."}

RECURSIVE RunEnd(_, _, _)
\* the end of the run of characters of S that starts at i
RunEnd(s, i, S) == IF Ch(s, i) \in S THEN RunEnd(s, i + 1, S) ELSE i
RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF Ch(s, i) \in {"NL", "EOF"} THEN i ELSE LineEnd(s, i + 1)

(* ------------------------------------------------ lexemes, declaratively *)
All(s, i, j, S) == \A k \in i..(j - 1) : s[k] \in S
Lex(s, i, j) == /\ i < j /\ j <= Len(s) + 1
                /\ \/ All(s, i, j, Word)                         \* identifiers, keywords, numbers with suffixes
                   \/ (j = i + 2 /\ <<s[i], s[i + 1]>> \in Two)
                   \/ (j = i + 1 /\ s[i] \in One)
Comment(s, i) == Ch(s, i) = "/" /\ Ch(s, i + 1) = "/"

(* -------------------------------------------------------------- the scanner *)
Longest(s, i) == IF Ch(s, i) \in Word THEN RunEnd(s, i, Word)
                 ELSE IF <<Ch(s, i), Ch(s, i + 1)>> \in Two THEN i + 2
                 ELSE IF Ch(s, i) \in One THEN i + 1 ELSE i
Class(s, i) == IF s[i] \in Digits THEN "num" ELSE IF s[i] \in Letters THEN "word" ELSE "op"

Chunks == {<<"l", "e", "t">>, <<"l", "e", "t", "s">>, <<"i", "f">>, <<"i", "n">>, <<"i">>, <<"f", "n">>, <<"f", "o", "r">>, <<"a", "s">>, <<"a">>, <<"_">>, <<"n", "e", "w">>, <<"n", "e">>,
           <<"e", "l", "s", "e">>, <<"u", "s", "e">>, <<"U", "s", "e">>, <<"t", "r", "u", "e">>, <<"w", "h", "i", "l", "e">>, <<"l", "o", "o", "p">>, <<"b", "r", "e", "a", "k">>,
           <<"s", "t", "r", "u", "c", "t">>, <<"c", "o", "n", "s", "t">>, <<"r", "e", "t", "u", "r", "n">>, <<"f", "a", "l", "s", "e">>, <<"c", "o", "n", "t", "i", "n", "u", "e">>,
           <<"0">>, <<"7">>, <<"1", "2">>, <<"0", "x">>, <<"0", "X", "F", "f">>, <<"0", "b", "1">>, <<"0", "b", "1", "2">>, <<"0", "o", "1", "7">>, <<"0", "O", "8">>, <<"9", "_", "9">>,
           <<"u", "3", "2">>, <<"f", "e", "l", "t">>, <<"1", "8", "4", "4", "6", "7", "4", "4", "0", "7", "3", "7", "0", "9", "5", "5", "1", "6", "1", "5">>,
           <<"1", "8", "4", "4", "6", "7", "4", "4", "0", "7", "3", "7", "0", "9", "5", "5", "1", "6", "1", "6">>, <<"/", "/">>, <<"/", "/", " ", "x">>, <<"/", "*">>,
           <<"NL">>, <<"CR", "NL">>, <<" ">>, <<"TAB">>, <<"@">>, <<"~">>, <<"`">>, <<"#">>, <<"$">>, <<"\"">>, <<"'">>, <<"?">>, <<"\\">>, <<"-", ">">>, <<":", ":">>, <<"=", "=">>, <<"&", "&">>, <<"<", "=">>}
          \cup {<<c>> : c \in One}
Pick(S) == RandomElement(S)
Init == p = 0 /\ toks = <<>> /\ src = <<>> /\ done = FALSE
\* p = 0: the source is still being written
Write == /\ p = 0 /\ ~done
         /\ IF Sim THEN IF Len(src) < MaxLen /\ Pick(1..20) > 1 THEN src' = src \o Pick(Chunks) /\ p' = 0 ELSE src' = src /\ p' = 1
            ELSE \/ (Len(src) < MaxLen /\ \E c \in Alphabet : src' = Append(src, c) /\ p' = 0)
                 \/ (src' = src /\ p' = 1)
         /\ UNCHANGED <<toks, done>>
At == p >= 1 /\ p <= Len(src)
SkipSpace == At /\ src[p] \in White /\ p' = RunEnd(src, p, White) /\ UNCHANGED <<src, toks, done>>
SkipComment == At /\ Comment(src, p) /\ p' = LineEnd(src, p) /\ UNCHANGED <<src, toks, done>>
Take == At /\ ~Comment(src, p) /\ Longest(src, p) > p
        /\ toks' = Append(toks, [c |-> Class(src, p), a |-> p, b |-> Longest(src, p)]) /\ p' = Longest(src, p) /\ UNCHANGED <<src, done>>
Error == At /\ src[p] \notin White /\ ~Comment(src, p) /\ Longest(src, p) = p
         /\ toks' = Append(toks, [c |-> "err", a |-> p, b |-> p + 1]) /\ p' = p + 1 /\ UNCHANGED <<src, done>>
End == p > Len(src) /\ p > 0 /\ ~done /\ done' = TRUE /\ UNCHANGED <<src, p, toks>>
Next == Write \/ SkipSpace \/ SkipComment \/ Take \/ Error \/ End
Spec == Init /\ [][Next]_vars

EmitCase == done => PrintT("CASE " \o ToJson([s |-> src, t |-> toks]))
(* ----------------------------------------------------------------- checked *)
MaximalMunch == \A k \in 1..Len(toks) : LET t == toks[k] IN t.c # "err" => (Lex(src, t.a, t.b) /\ \A j \in (t.b + 1)..(Len(src) + 1) : ~Lex(src, t.a, j))
\* what no token covers is white space or comment
RECURSIVE Gap(_, _, _)
Gap(s, i, j) == IF i >= j THEN i = j ELSE IF s[i] \in White THEN Gap(s, i + 1, j) ELSE IF Comment(s, i) THEN Gap(s, LineEnd(s, i), j) ELSE FALSE
Tiling == done => LET k == Len(toks) from(i) == IF i = 0 THEN 1 ELSE toks[i].b to(i) == IF i > k THEN Len(src) + 1 ELSE toks[i].a
                  IN \A i \in 0..k : Gap(src, from(i), to(i + 1))
=============================================================================
