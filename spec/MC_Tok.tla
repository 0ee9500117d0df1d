------------------------------- MODULE MC_Tok -------------------------------
(* C01, C02: every text over representatives of all word-break classes, every digit word over representatives of   *)
(* what can follow a digit, and every short list of texts, empty texts and values.                                  *)
EXTENDS MCBase
\*           a   1   _   '   "   .   ,   :   sp  CR  LF  mark  ZWJ   HL    KA     hira   RI      emoji   -   modifier
W == ByTier({97, 49, 95, 39, 34, 46, 44, 58, 32, 13, 10, 769, 8205, 1488, 12450, 12354, 127462, 128512, 45},
            {97, 49, 95, 39, 34, 46, 44, 58, 32, 13, 769, 8205, 1488, 12450, 12354, 127462, 128512, 45})
Shown == (9..13) \cup (33..47) \cup (58..64) \cup (91..96) \cup (123..126) \cup (160..191)
           \cup {8206, 8211, 8217, 8220, 8230, 8232, 8364, 8419, 12288, 65039, 1633, 19968, 127997, 215, 233, 1046}
\* deep: every character whose facts the specification claims to know, and some ideographs
AllKnown == {c \in (9..1700) \cup (8190..8420) \cup (12280..12540) \cup (19968..19990) \cup {40879, 65039} \cup (127460..127490)
               \cup (127990..128000) \cup (128510..128595) : Known(c)}
Extra == ByTier(Shown, AllKnown)
\*    1   0   a   ,   .   '   -   mark  é  half
D == {49, 97, 44, 46, 39, 769, 233}
MaxW == ByTier(3, 4)
MaxD == ByTier(4, 6)
Pieces == {T(<<>>), T(a_), T(<< 49, 44 >>), T(sp), V(1)}
AllIn(cp, S) == \A k \in DOMAIN cp : cp[k] \in S

MCPrepare(i) ==
  (IF i = <<>> THEN {<< T(<< c >>) >> : c \in W \cup D \cup Extra} ELSE {})
  \cup (IF Len(i) = 1 /\ i[1].k = "T"
        THEN LET cp == i[1].cp IN
             {<< T(Append(cp, c)) >> : c \in (IF AllIn(cp, W) /\ Len(cp) < MaxW THEN W ELSE {})
                                             \cup (IF AllIn(cp, D) /\ cp # <<>> /\ cp[1] = 49 /\ Len(cp) < MaxD THEN D ELSE {})
                                             \cup (IF Len(cp) = 1 /\ cp[1] \in {97, 49, 32} THEN Extra ELSE {})}
             \cup {<< T(cp \o << c >>) >> : c \in IF Len(cp) = 2 /\ cp[1] \in {97, 49} /\ cp[2] \in Extra THEN {97, 49} ELSE {}}
        ELSE {})
  \cup (IF \A k \in DOMAIN i : i[k] \in Pieces THEN Grow(i, Pieces, ByTier(3, 4)) ELSE {})
MCReady(i) == \A k \in DOMAIN i : i[k].k = "T" => KnownText(i[k].cp)
MCVias(i) == IF Len(i) = 1 /\ i[1].k = "T" THEN (IF Len(i[1].cp) <= 2 THEN {"input", "tokens", "string"} ELSE {"input"}) ELSE {"input", "tokens"}
MCOwn == IF Prop = "C01" THEN << "joined" >> ELSE << "toks", "create" >>
MCOps(L) == << [f |-> "toks"] >>
=============================================================================
