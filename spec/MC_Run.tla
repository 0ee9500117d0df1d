------------------------------- MODULE MC_Run -------------------------------
(* C05, C06: every history of up to n runs on small lines; the runs assign every list of one or two values to every *)
(* span, copy what an earlier run assigned, cover the whole line, or are library resolvers.                          *)
EXTENDS MCBase
Starts == {<< >>, << T(a_) >>, << T(<< 97, 32 >>) >>, << T(a_), V(1) >>, << T(<< 97, 32, 98 >>) >>, << With(V(1), << Attr("A", 1, 1) >>), T(<< 49, 44 >>) >>}
MCPrepare(i) == IF i = <<>> THEN Starts \ {<<>>} ELSE {}
MCReady(i) == TRUE
MaxRuns == ByTier(2, 3)
Small(L) == NTok(L) <= 2
Extras(h) == {[r |-> "full", ty |-> "A", v |-> << 1 >>, id |-> NewId(h, 3)],
              [r |-> "echo", ty |-> "A", to |-> "B", add |-> 100 * (Len(h) + 1)],
              [r |-> "echo", ty |-> "A", to |-> "A", add |-> 100 * (Len(h) + 1)],
              [r |-> "echo", ty |-> "tag", to |-> "C", add |-> 100 * (Len(h) + 1)],
              Assign("A", <<>>)}
MCRuns(L, h) ==
  IF Len(h) >= MaxRuns THEN {}
  ELSE IF NTok(L) = 0 THEN {x \in Extras(h) : x.r # "assign" \/ x.as = <<>>}
  ELSE Extras(h)
       \cup {Assign("A", as) : as \in Lists(NTok(L), h, IF Small(L) /\ Len(h) = 0 THEN {1, 2} ELSE {1}, Len(h) = 0 \/ Small(L) \/ Deep)}
       \cup (IF Prop = "C05" \/ Len(h) = 1 THEN {Assign("B", as) : as \in Lists(NTok(L), h, {1}, FALSE)} ELSE {})
       \cup (IF Prop = "C05" THEN {[r |-> "amount", cfg |-> "en"], [r |-> "pos"]} ELSE {})
MCComplete(L, h) == h # <<>>
MCOwn == << "run:assign", "run:full", "run:echo" >> \o (IF Prop = "C05" THEN << "calls" >> ELSE << "ops" >>)
OfType(L, ty) ==
  LET n == NTok(L)  m == MAttr(ty) IN
  << QueryOp(ty), FindOp(m) >>
  \o Cross(LAMBDA f, s : OpM(f, s, m), << "match_f", "match_b", "find_by", "both" >>, Singles(n))
MCOps(L) ==
  IF Prop = "C05" THEN <<>>
  ELSE OfType(L, "A") \o OfType(L, "tag") \o << QueryOp("B"), FindOp(MAttr("B")), QueryOp("C"), QueryOp("char"), FindOp(MAttr("C")), FindOp(MAttr("char")),
                                                DispOp(<< "A", "tag", "B" >>) >>
=============================================================================
