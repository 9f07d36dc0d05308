------------------------------- MODULE MQText -------------------------------
(***************************************************************************)
(* Text as sequences of Unicode code points, and what the language does    *)
(* with it below the level of the grammar: character classes, separators   *)
(* (blanks and comments) and words.                                        *)
(*                                                                         *)
(* A position is an index into the text; position Len(s)+1 is the end.     *)
(* Recognisers return the position after what they matched, or 0.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerSeq(s) == [i \in 1..Len(s) |-> Lower(s[i])]

IsAlpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
IsDigit(c) == c >= 48 /\ c <= 57
IsWord(c)  == IsAlpha(c) \/ IsDigit(c) \/ c = 95
IsEol(c)   == c = 10 \/ c = 13
IsBlank(c) == c = 32 \/ c = 9 \/ IsEol(c)

(* A string of TLA+ as code points, for printable ASCII. *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in { SubSeq(Ascii, i, i) : i \in 1..Len(Ascii) } |-> 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]
T(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

(* The words and symbols of the language as code points. *)
W_not     == <<110,111,116>>
W_and     == <<97,110,100>>
W_or      == <<111,114>>
W_in      == <<105,110>>
W_like    == <<108,105,107,101>>
W_gte     == <<103,116,101>>
W_lte     == <<108,116,101>>
W_gt      == <<103,116>>
W_lt      == <<108,116>>
W_eq      == <<101,113>>
W_neq     == <<110,101,113>>
W_between == <<98,101,116,119,101,101,110>>
W_isnull  == <<105,115,110,117,108,108>>
W_notnull == <<110,111,116,110,117,108,108>>
W_is      == <<105,115>>
W_true    == <<116,114,117,101>>
W_false   == <<102,97,108,115,101>>
W_TRUE    == <<84,82,85,69>>
W_FALSE   == <<70,65,76,83,69>>
W_null    == <<110,117,108,108>>
W_NULL    == <<78,85,76,76>>
W_date    == <<100,97,116,101>>
W_hasedge == <<104,97,115,95,101,100,103,101>>

(* Does the word k (lower case) start at i?  LitI ignores the letter case. *)
RECURSIVE LitFrom(_,_,_,_)
LitFrom(s, i, k, j) ==
  IF j > Len(k) THEN i + Len(k)
  ELSE IF At(s, i + j - 1) = k[j] THEN LitFrom(s, i, k, j + 1) ELSE 0
Lit(s, i, k) == LitFrom(s, i, k, 1)

RECURSIVE LitIFrom(_,_,_,_)
LitIFrom(s, i, k, j) ==
  IF j > Len(k) THEN i + Len(k)
  ELSE IF Lower(At(s, i + j - 1)) = k[j] THEN LitIFrom(s, i, k, j + 1) ELSE 0
LitI(s, i, k) == LitIFrom(s, i, k, 1)

(* First position from i on where a line ends, 0 if there is none. *)
RECURSIVE EolFrom(_,_)
EolFrom(s, i) == IF i > Len(s) THEN 0 ELSE IF IsEol(s[i]) THEN i ELSE EolFrom(s, i + 1)

(* First position from i on holding c, 0 if there is none. *)
RECURSIVE FindFrom(_,_,_)
FindFrom(s, i, c) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE FindFrom(s, i + 1, c)

RECURSIVE WordEnd(_,_)
WordEnd(s, i) == IF i <= Len(s) /\ IsWord(s[i]) THEN WordEnd(s, i + 1) ELSE i

RECURSIVE DigitEnd(_,_)
DigitEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitEnd(s, i + 1) ELSE i

(* Position after all blanks and comments from i on (possibly i itself).   *)
(* A comment extends to the end of its line and needs one.                 *)
RECURSIVE Skip(_,_)
Skip(s, i) ==
  IF i > Len(s) THEN i
  ELSE IF IsBlank(s[i]) THEN Skip(s, i + 1)
  ELSE IF (s[i] = 45 \/ s[i] = 47) /\ At(s, i + 1) = s[i]
       THEN LET e == EolFrom(s, i + 2) IN IF e = 0 THEN i ELSE Skip(s, e + 1)
       ELSE i

(* At least one blank or comment: 0 if there is none. *)
Skip1(s, i) == LET e == Skip(s, i) IN IF e = i THEN 0 ELSE e

IsBlankText(s) == \A i \in 1..Len(s) : IsBlank(s[i])

(* Numbers are digit sequences, most significant first: TLC integers have  *)
(* 32 bits, the language has 64.                                           *)
MaxInt == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>

RECURSIVE DigitsLessFrom(_,_,_)
DigitsLessFrom(a, b, i) ==
  IF i > Len(a) THEN FALSE
  ELSE IF a[i] = b[i] THEN DigitsLessFrom(a, b, i + 1) ELSE a[i] < b[i]
DigitsLess(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE DigitsLessFrom(a, b, 1)

(* Lexicographic order of code point sequences. *)
RECURSIVE SeqLessFrom(_,_,_)
SeqLessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] = b[i] THEN SeqLessFrom(a, b, i + 1) ELSE a[i] < b[i]
SeqLess(a, b) == SeqLessFrom(a, b, 1)
=============================================================================
