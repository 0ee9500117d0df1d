------------------------------- MODULE MC_Res -------------------------------
(* C14 - C18: the library's resolvers on every short line over an alphabet of texts that matter to them. *)
EXTENDS MCBase
k_if == << 105, 102 >>  k_then == << 116, 104, 101, 110 >>  k_and == << 97, 110, 100 >>  k_IF == << 73, 70 >>
e_ == << 233 >>  E_ == << 201 >>

Alphabet ==
  CASE Prop = "C14" -> {T(a_), T(<< 65 >>), T(e_), T(E_), T(<< 97, 98 >>), T(<< 32 >>), V(1)}
    [] Prop = "C15" -> {T(<< 49 >>), T(<< 48, 50 >>), T(comma), T(dot), T(<< 39 >>), T(sp), T(x_), V(1)}
    [] Prop = "C16" -> {T(k_if), T(k_IF), T(k_then), T(k_and), T(<< 32 >>), T(x_), T(<< 105, 102, 120 >>), V(1)}
    [] Prop = "C17" -> {T(k_if), T(k_then), T(k_and), T(comma), T(sp), T(x_), V(1)}
    [] Prop = "C18" -> {T(Vocab[k][1]) : k \in DOMAIN Vocab} \cup {T(<< 84, 104, 69 >>), T(<< 122, 122, 113, 120 >>), T(<< 116, 119, 111 >>),
                        T(sp), T(<< 49, 97 >>), T(<< 46 >>), T(<< 95 >>), V(1)}
MaxIn == CASE Prop = "C14" -> ByTier(2, 3)
           [] Prop = "C15" -> ByTier(3, 4)
           [] Prop = "C16" -> ByTier(3, 4)
           [] Prop = "C17" -> ByTier(4, 5)
           [] Prop = "C18" -> ByTier(2, 3)
\* C15 also: every single text over these characters
Chars == {49, 48, 44, 46, 39, 32, 120}
MaxChars == ByTier(4, 6)
MCPrepare(i) ==
  (IF \A k \in DOMAIN i : i[k] \in Alphabet THEN Grow(i, Alphabet, MaxIn) ELSE {})
  \cup (IF Prop = "C15" /\ i = <<>> THEN {<< T(<< c >>) >> : c \in Chars} ELSE {})
  \cup (IF Prop = "C15" /\ Len(i) = 1 /\ i[1].k = "T" /\ (\A k \in DOMAIN i[1].cp : i[1].cp[k] \in Chars) /\ Len(i[1].cp) < MaxChars
        THEN {<< T(Append(i[1].cp, c)) >> : c \in Chars} ELSE {})
MCReady(i) == i # <<>>

Entry(key, vs) == [key |-> key, lkey |-> Lower(key), vs |-> [k \in 1..Len(vs) |-> [v |-> << vs[k][1] >>, id |-> vs[k][2]]]]
Tables == {<<>>,
           << Entry(a_, << << 1, 1 >> >>) >>,
           << Entry(a_, << << 1, 1 >>, << 1, 2 >>, << 2, 3 >> >>), Entry(e_, << << 3, 4 >> >>) >>,
           << Entry(<< 65 >>, << << 1, 1 >> >>), Entry(<< 97, 98 >>, <<>>), Entry(<< 32 >>, << << 2, 2 >> >>) >>,
           << Entry(E_, << << 1, 1 >> >>), Entry(<< 120 >>, << << 2, 2 >> >>), Entry(<<>>, << << 9, 9 >> >>) >> }
\* keys that meet after lower-casing: only the array form keeps their order
Meeting == << Entry(a_, << << 1, 1 >> >>), Entry(<< 65 >>, << << 2, 2 >>, << 3, 3 >> >>) >>
\* the array form has one value per entry
Arrays == {<<>>, << Entry(<< 65 >>, << << 1, 1 >> >>) >>,
           << Entry(a_, << << 1, 1 >> >>), Entry(<< 65 >>, << << 2, 2 >> >>), Entry(e_, << << 3, 3 >> >>), Entry(a_, << << 1, 4 >> >>) >>,
           << Entry(E_, << << 1, 1 >> >>), Entry(<< 32 >>, << << 2, 2 >> >>), Entry(e_, << << 3, 3 >> >>) >>}
TextRuns == {[r |-> "text", ty |-> "A", ci |-> ci, arr |-> 0, tab |-> t] : ci \in {0, 1}, t \in Tables}
            \cup {[r |-> "text", ty |-> "B", ci |-> 1, arr |-> 1, tab |-> t] : t \in Arrays}
            \cup {[r |-> "text", ty |-> "B", ci |-> 0, arr |-> 0, tab |-> Meeting]}
AmountRuns == {[r |-> "amount", cfg |-> "en"], [r |-> "amount", cfg |-> "fr"]}
              \cup {[r |-> "amount", cfg |-> "new", del |-> << 44, 46 >>, dec |-> 46], [r |-> "amount", cfg |-> "new", del |-> <<>>, dec |-> 44]}
KwRuns == {[r |-> "kw", c |-> << k_if >>, t |-> << k_then >>, a |-> << k_and >>],
           [r |-> "kw", c |-> <<>>, t |-> << k_if, k_then >>, a |-> << k_if, x_ >>],
           [r |-> "kw", c |-> << k_if, k_and >>, t |-> << k_if >>, a |-> << k_and, k_and, sp >>],
           [r |-> "kw", c |-> <<>>, t |-> <<>>, a |-> <<>>]}
Kw1 == [r |-> "kw", c |-> << k_if >>, t |-> << k_then >>, a |-> << k_and >>]

MCRuns(L, h) ==
  CASE Prop = "C14" -> IF h = <<>> THEN TextRuns ELSE {}
    [] Prop = "C15" -> IF h = <<>> THEN AmountRuns ELSE {}
    [] Prop = "C16" -> IF h = <<>> THEN KwRuns ELSE {}
    [] Prop = "C17" -> IF h = <<>> THEN {Kw1} ELSE IF Len(h) = 1 THEN {[r |-> "clause"]} ELSE {}
    [] Prop = "C18" -> IF h = <<>> THEN {[r |-> "pos"]} ELSE {}
MCComplete(L, h) == IF Prop = "C17" THEN Len(h) = 2 ELSE Len(h) = 1
MCOwn == << CASE Prop = "C14" -> "run:text" [] Prop = "C15" -> "run:amount" [] Prop = "C16" -> "run:kw" [] Prop = "C17" -> "run:clause" [] Prop = "C18" -> "run:pos" >>
=============================================================================
