------------------------------- MODULE MC_Disp -------------------------------
(* C13: lines with narrow, wide, combining and value tokens x assignments x included types *)
EXTENDS MCBase
Pieces == {T(a_), T(<< 97, 98, 99 >>), T(<< 12354 >>), T(<< 101, 769 >>), T(sp), V(1)}
MCPrepare(i) == Grow(i, Pieces, ByTier(3, 4))
MCReady(i) == Len(i) > 0
MCRuns(L, h) == IF h = <<>> THEN {Assign("A", as) : as \in Lists(NTok(L), h, {1}, NTok(L) <= 2)}
                ELSE IF Len(h) = 1 /\ NTok(L) <= ByTier(1, 2) THEN {Assign("A", as) : as \in Lists(NTok(L), h, {2}, FALSE)} ELSE {}
MCComplete(L, h) == h # <<>>
MCOwn == << "ops" >>
MCOps(L) == << DispOp(<< "A" >>), DispOp(<<>>), DispOp(<< "tag", "A" >>), DispOp(<< "A", "A", "B" >>) >>
=============================================================================
