------------------------------- MODULE MC_Order -------------------------------
(* C19: every order and repetition of up to n library and user runs *)
EXTENDS MCBase
Txt(s) == << T(s) >>
\* "if a, then 1,5", "he ran 2.5 if x", a value among texts
Starts == {Txt(<< 105,102,32,97,44,32,116,104,101,110,32,49,44,53 >>),
           Txt(<< 104,101,32,50,46,53,32,105,102,32,120 >>),
           << T(<< 97, 32 >>), V(1), T(<< 32, 49, 44, 97 >>) >>}
MCPrepare(i) == IF i = <<>> THEN Starts ELSE {}
MCReady(i) == i # <<>>
All == {[r |-> "amount", cfg |-> "en"], [r |-> "amount", cfg |-> "fr"],
        [r |-> "kw", c |-> << << 105, 102 >> >>, t |-> << << 116, 104, 101, 110 >> >>, a |-> << << 97, 110, 100 >> >>],
        [r |-> "clause"], [r |-> "pos"],
        [r |-> "text", ty |-> "A", ci |-> 1, arr |-> 0, tab |-> << [key |-> << 65 >>, lkey |-> << 97 >>, vs |-> << [v |-> << 1 >>, id |-> 1], [v |-> << 2 >>, id |-> 2] >>] >>],
        [r |-> "echo", ty |-> "A", to |-> "B", add |-> 10],
        [r |-> "full", ty |-> "C", v |-> << 1 >>, id |-> 5]}
MCRuns(L, h) == IF Len(h) < ByTier(3, 4) THEN All ELSE {}
MCComplete(L, h) == Len(h) = ByTier(3, 4)
MCOwn == << >>
=============================================================================
