------------------------------- MODULE LNText -------------------------------
(***************************************************************************)
(* Text level of layered-nlp: characters, Unicode word boundaries (UAX 29),*)
(* the further splitting of digit words, text tags and size functions.     *)
(*                                                                         *)
(* A text is a sequence of code points.  Facts about a character (word     *)
(* break class, alphabetic, white space) are known to the specification    *)
(* for the ranges of CharTable; for any other character a trace supplies   *)
(* them as facts of the environment (see LNTrace).                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

\* ---- text tags --------------------------------------------------------
NATN == 1  PUNC == 2  SYMB == 3  SPACE == 4  WORD == 5

\* ---- character table --------------------------------------------------
In(c, lo, hi) == lo <= c /\ c <= hi

IsAsciiDigit(c) == In(c, 48, 57)

\* characters whose facts are part of the specification
Known(c) ==
  \/ In(c, 9, 13) \/ In(c, 32, 126) \/ In(c, 160, 591)
  \/ In(c, 768, 836)                       \* combining marks
  \/ In(c, 913, 929) \/ In(c, 931, 937) \/ In(c, 945, 969)   \* Greek letters
  \/ In(c, 1040, 1103)                     \* Cyrillic
  \/ In(c, 1488, 1514)                     \* Hebrew letters
  \/ In(c, 1632, 1641)                     \* Arabic-Indic digits
  \/ c \in {8195, 8205, 8206, 8211, 8212, 8216, 8217, 8220, 8221, 8230, 8232, 8255, 8364, 8419, 12288, 65039}
  \/ In(c, 12353, 12438)                   \* Hiragana
  \/ In(c, 12449, 12538)                   \* Katakana
  \/ In(c, 19968, 40879)                   \* CJK ideographs
  \/ In(c, 127462, 127487)                 \* regional indicators
  \/ In(c, 127995, 127999)                 \* emoji modifiers
  \/ In(c, 128512, 128591)                 \* emoticons

\* word break class
WBClass(c) ==
  CASE c = 13 -> "CR"
    [] c = 10 -> "LF"
    [] c \in {11, 12, 8232} -> "NL"
    [] In(c, 768, 836) \/ c \in {8419, 65039} \/ In(c, 127995, 127999) -> "EX"
    [] c = 8205 -> "ZWJ"
    [] c \in {173, 8206} -> "FO"
    [] In(c, 12449, 12538) -> "KA"
    [] In(c, 1488, 1514) -> "HL"
    [] In(c, 65, 90) \/ In(c, 97, 122) -> "AL"
    [] c \in {170, 181, 184, 186} \/ In(c, 192, 214) \/ In(c, 216, 246) \/ In(c, 248, 591) -> "AL"
    [] In(c, 913, 929) \/ In(c, 931, 937) \/ In(c, 945, 969) \/ In(c, 1040, 1103) -> "AL"
    [] c = 39 -> "SQ"
    [] c = 34 -> "DQ"
    [] c \in {46, 8216, 8217} -> "MB"
    [] c \in {58, 183} -> "ML"
    [] c \in {44, 59} -> "MN"
    [] IsAsciiDigit(c) \/ In(c, 1632, 1641) -> "NU"
    [] c \in {95, 8255} -> "EN"
    [] In(c, 127462, 127487) -> "RI"
    [] c \in {169, 174} \/ In(c, 128512, 128591) -> "EP"
    [] c \in {32, 8195, 12288} -> "WS"
    [] OTHER -> "XX"

KnownAlpha(c) ==
  \/ In(c, 65, 90) \/ In(c, 97, 122) \/ c \in {170, 181, 186}
  \/ In(c, 192, 214) \/ In(c, 216, 246) \/ In(c, 248, 591)
  \/ In(c, 913, 929) \/ In(c, 931, 937) \/ In(c, 945, 969) \/ In(c, 1040, 1103)
  \/ In(c, 1488, 1514) \/ In(c, 12353, 12438) \/ In(c, 12449, 12538) \/ In(c, 19968, 40879)

KnownSpace(c) == In(c, 9, 13) \/ c \in {32, 160, 8195, 8232, 12288}

\* ---- facts used by tokenizing: table or environment ---------------------
\* env is a record [al: set of alphabetic, ws: set of white space] over the
\* characters outside the table.
NoEnv == [al |-> {}, ws |-> {}]
IsAlpha(c, env) == IF Known(c) THEN KnownAlpha(c) ELSE c \in env.al
IsSpace(c, env) == IF Known(c) THEN KnownSpace(c) ELSE c \in env.ws

\* ---- UAX 29 word boundaries --------------------------------------------
AH == {"AL", "HL"}
Newlines == {"CR", "LF", "NL"}
Ignored == {"EX", "FO", "ZWJ"}
MidNumLetQ == {"MB", "SQ"}

RECURSIVE PrevEff(_, _), NextEff(_, _), RICount(_, _)
\* position of the character that position k belongs to under WB4
PrevEff(cl, k) ==
  IF k = 0 THEN 0
  ELSE IF cl[k] \in Ignored /\ k > 1 /\ cl[k-1] \notin Newlines THEN PrevEff(cl, k-1) ELSE k
\* first position >= k whose character is not ignored (0 if none)
NextEff(cl, k) ==
  IF k > Len(cl) THEN 0 ELSE IF cl[k] \in Ignored THEN NextEff(cl, k+1) ELSE k
\* number of regional indicators directly before and including effective position k
RICount(cl, k) ==
  IF k = 0 THEN 0 ELSE IF cl[k] = "RI" THEN 1 + RICount(cl, PrevEff(cl, k-1)) ELSE 0

\* is there a word boundary between characters k and k+1 ?
IsBoundary(cl, k) ==
  LET a == cl[k]  b == cl[k+1] IN
  IF a = "CR" /\ b = "LF" THEN FALSE                                  \* WB3
  ELSE IF a \in Newlines \/ b \in Newlines THEN TRUE                  \* WB3a, WB3b
  ELSE IF a = "ZWJ" /\ b = "EP" THEN FALSE                            \* WB3c
  ELSE IF a = "WS" /\ b = "WS" THEN FALSE                             \* WB3d
  ELSE IF b \in Ignored THEN FALSE                                    \* WB4
  ELSE
  LET p  == PrevEff(cl, k)
      pa == cl[p]
      q  == PrevEff(cl, p-1)
      qa == IF q = 0 THEN "sot" ELSE cl[q]
      n  == NextEff(cl, k+2)
      nb == IF n = 0 THEN "eot" ELSE cl[n]
  IN ~ ( \/ pa \in AH /\ b \in AH                                     \* WB5
         \/ pa \in AH /\ b \in ({"ML"} \cup MidNumLetQ) /\ nb \in AH  \* WB6
         \/ qa \in AH /\ pa \in ({"ML"} \cup MidNumLetQ) /\ b \in AH  \* WB7
         \/ pa = "HL" /\ b = "SQ"                                     \* WB7a
         \/ pa = "HL" /\ b = "DQ" /\ nb = "HL"                        \* WB7b
         \/ qa = "HL" /\ pa = "DQ" /\ b = "HL"                        \* WB7c
         \/ pa = "NU" /\ b = "NU"                                     \* WB8
         \/ pa \in AH /\ b = "NU"                                     \* WB9
         \/ pa = "NU" /\ b \in AH                                     \* WB10
         \/ qa = "NU" /\ pa \in ({"MN"} \cup MidNumLetQ) /\ b = "NU"  \* WB11
         \/ pa = "NU" /\ b \in ({"MN"} \cup MidNumLetQ) /\ nb = "NU"  \* WB12
         \/ pa = "KA" /\ b = "KA"                                     \* WB13
         \/ pa \in (AH \cup {"NU", "KA", "EN"}) /\ b = "EN"           \* WB13a
         \/ pa = "EN" /\ b \in (AH \cup {"NU", "KA"})                 \* WB13b
         \/ pa = "RI" /\ b = "RI" /\ RICount(cl, p) % 2 = 1 )         \* WB15, WB16

\* the words of a text: maximal stretches without a boundary inside
Words(cps) ==
  LET n  == Len(cps)
      cl == TLCEval([k \in 1..n |-> WBClass(cps[k])])
      starts == SelectSeq([k \in 1..n |-> k], LAMBDA k : k = 1 \/ IsBoundary(cl, k-1))
      m  == Len(starts)
  IN IF n = 0 THEN <<>>
     ELSE [w \in 1..m |-> SubSeq(cps, starts[w], IF w = m THEN n ELSE starts[w+1] - 1)]

\* The library the code cuts words with departs from UAX 29 where a mark such as ' or , is joined to a pictograph by a
\* ZWJ; what it does there is taken as a fact of the environment.
Settled(cps) ==
  LET n  == Len(cps)
      cl == TLCEval([k \in 1..n |-> WBClass(cps[k])])
  IN ~\E k \in 1..(n-1) : cl[k] = "ZWJ" /\ cl[k+1] = "EP" /\ cl[PrevEff(cl, k)] \in {"SQ", "MB", "MN", "ML", "DQ"}
KnownText(cps) == (\A k \in DOMAIN cps : Known(cps[k])) /\ Settled(cps)

\* words given by their lengths (environment facts of a trace)
WordsByLen(cps, lens) ==
  FoldLeft(LAMBDA acc, n : [at |-> acc.at + n, ws |-> Append(acc.ws, SubSeq(cps, acc.at + 1, acc.at + n))],
           [at |-> 0, ws |-> <<>>], lens).ws

\* ---- text tags -----------------------------------------------------------
PunctChars == {44, 46, 33, 59, 58, 63, 39, 34}
WordJoiners == {39, 45, 8211}

TagOf(cps, env) ==
  IF \A k \in DOMAIN cps : IsSpace(cps[k], env) THEN SPACE
  ELSE IF Len(cps) = 1 /\ cps[1] \in PunctChars THEN PUNC
  ELSE IF IsAlpha(cps[1], env) /\ \A k \in 2..Len(cps) : IsAlpha(cps[k], env) \/ cps[k] \in WordJoiners
       THEN WORD
  ELSE SYMB

\* kind of a character inside a digit word: maximal runs of equal kind "d" or
\* "l" stay together, every "o" stands alone
DigitWordKind(c, env) == IF IsAsciiDigit(c) THEN "d" ELSE IF IsAlpha(c, env) THEN "l" ELSE "o"

DigitWordPieces(w, env) ==
  LET n == Len(w)
      kd == TLCEval([k \in 1..n |-> DigitWordKind(w[k], env)])
      starts == SelectSeq([k \in 1..n |-> k], LAMBDA k : k = 1 \/ kd[k] = "o" \/ kd[k] # kd[k-1])
      m == Len(starts)
  IN [i \in 1..m |-> SubSeq(w, starts[i], IF i = m THEN n ELSE starts[i+1] - 1)]

TextTok(cps, tag) == [k |-> "T", cp |-> cps, tag |-> tag]
ValueTok == [k |-> "V", cp |-> <<>>, tag |-> 0]

TokensOfWord(w, env) ==
  IF IsAsciiDigit(w[1])
  THEN LET ps == DigitWordPieces(w, env) IN
       [i \in 1..Len(ps) |-> TextTok(ps[i], IF IsAsciiDigit(ps[i][1]) THEN NATN ELSE TagOf(ps[i], env))]
  ELSE << TextTok(w, TagOf(w, env)) >>

TokensOfWords(ws, env) == FlattenSeq([i \in 1..Len(ws) |-> TokensOfWord(ws[i], env)])

TokensOfText(cps) == TokensOfWords(Words(cps), NoEnv)

\* ---- size functions the harness can pass ----------------------------------
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Utf16Len(c) == IF c < 65536 THEN 1 ELSE 2
SumOver(cps, f(_)) == FoldSeq(LAMBDA c, acc : f(c) + acc, 0, cps)

SizeOf(szf, cps) ==
  CASE szf = "u8"    -> SumOver(cps, Utf8Len)
    [] szf = "u16"   -> SumOver(cps, Utf16Len)
    [] szf = "chars" -> Len(cps)
    [] szf = "one"   -> 1
    [] szf = "zero"  -> 0
    [] szf = "mix"   -> 3 * Len(cps) + (cps[1] % 5) + 2 * (cps[Len(cps)] % 3)

\* ---- lower-casing (table part) ---------------------------------------------
LowerKnown(c) == In(c, 9, 126) \/ In(c, 192, 222) \/ In(c, 224, 254) \/ In(c, 1040, 1103)
                 \/ In(c, 768, 836)
Lower1(c) == IF In(c, 65, 90) \/ (In(c, 192, 222) /\ c # 215) \/ In(c, 1040, 1071) THEN c + 32 ELSE c
Lower(cps) == [k \in 1..Len(cps) |-> Lower1(cps[k])]

Digit(d) == 48 + d
RECURSIVE NatCps(_)
NatCps(n) == IF n < 10 THEN << Digit(n) >> ELSE Append(NatCps(n \div 10), Digit(n % 10))
=============================================================================
