------------------------------- MODULE MC_Sel -------------------------------
(* C07 - C12: small lines, layered in every way by up to three assignments of A and B, looked at with every           *)
(* operation of the property, from every selection, with every matcher of a list.                                    *)
EXTENDS MCBase
L2 == {<< T(a_), V(1) >>, << T(sp), T(a_) >>}
L3 == {<< T(<< 97, 32, 98 >>) >>, << V(1), T(<< 97 >>), V(1) >>, << T(<< 32, 49 >>), T(sp) >>}
L4 == {<< T(<< 97, 32, 98, 32 >>) >>, << T(a_), V(1), T(<< 49, 44 >>) >>}
Starts == ByTier(CASE Prop \in {"C10", "C12"} -> L3 \cup L4
                   [] Prop = "C08" -> L3
                   [] OTHER -> L2 \cup L3, L2 \cup L3 \cup L4)
MCPrepare(i) == IF i = <<>> THEN Starts ELSE {}
MCReady(i) == i # <<>> \/ Prop = "C12"
\* first up to two (deep: three) values of A, then perhaps one B
AList(L) ==
  {Assign("A", as) : as \in Lists(NTok(L), <<>>, {1}, TRUE)}
  \cup {Assign("A", << Asg(s[1], s[2], << 1 >>, 1), Asg(s[1], s[2], << 2 >>, 2), Asg(u[1], u[2], << 1 >>, 3) >>) : s \in SpanSet(NTok(L)), u \in SpanSet(NTok(L))}
BList(L) == {Assign("B", as) : as \in Lists(NTok(L), << 0 >>, {1}, FALSE)}
MCRuns(L, h) ==
  IF h = <<>> THEN AList(L)
  ELSE IF Len(h) = 1 /\ (Prop \in {"C08", "C07"} \/ Deep) /\ NTok(L) <= 3 THEN BList(L) ELSE {}
MCComplete(L, h) == IF Prop = "C08" /\ ~Deep THEN Len(h) = 2 ELSE TRUE
MCOwn == << "ops" >>

Elem == << MAttr("A"), MEq("A", 1), MEq("A", 3), MHas("A", << << 1 >>, << 2 >> >>), MHas("A", <<>>), MHas("tag", << << SPACE >>, << WORD >> >>), MText, MWs, MAttr("tag"),
           MEq("tag", WORD), MAttr("char"), MEq("char", 97), MHas("char", << << 32 >> >>), MAttr("B"), MAttr("C") >>
E1 == << MAttr("A"), MAttr("B"), MText, MWs, MHas("A", << << 2 >> >>) >>
Pairs(f(_)) == Cross(LAMBDA x, y : f(<< x, y >>), E1, E1)
E2 == << MAttr("A"), MText, MAttr("B") >>
Triples(f(_)) == FlatMap(LAMBDA x : Cross(LAMBDA y, z : f(<< x, y, z >>), E2, E2), E2)
Nested == << MSeq(<< MOr(<< MAttr("B"), MText >>), MAttr("A") >>), MSeq(<< MAll(<< MAttr("A"), MText >>), MText >>),
             MOr(<< MSeq(<< MAttr("A"), MAttr("A") >>), MSeq(<< MText, MText >>) >>), MAll(<< MSeq(<< MText, MText >>), MAttr("A") >>),
             MSeq(<< MSeq(<< MText, MText >>), MText >>), MSeq(<< MText, MSeq(<< MText, MAttr("A") >>) >>),
             MAll(<< MOr(<< MAttr("A"), MText >>), MOr(<< MText, MAttr("A") >>) >>),
             MOr(<< MAll(<< MAttr("A"), MAttr("B") >>), MAttr("B"), MText >>) >>
Combos == Pairs(MSeq) \o Pairs(MAll) \o Pairs(MOr) \o Triples(MSeq) \o Triples(MAll) \o Triples(MOr) \o Nested
Look == << MAttr("A"), MText, MSeq(<< MText, MText >>), MOr(<< MAttr("A"), MWs >>), MHas("A", << << 1 >> >>), MAll(<< MAttr("A"), MAttr("A") >>) >>

\* operations one after the other
Step(f, m, pick) == [f |-> f, m |-> m, pick |-> pick]
Chains == << << Step("split_by", MWs, 0), Step("trim", MText, 0) >>, << Step("split_by", MWs, 1), Step("match_b", MWs, 0), Step("split_by", MText, 0) >>,
             << Step("match_f", MText, 0), [f |-> "after", pick |-> 0] >>, << Step("find_by", MAttr("A"), 1), Step("match_b", MText, 0), Step("trim_e", MText, 0) >>,
             << Step("both", MAttr("A"), 2), Step("find_by", MText, 0) >>, << [f |-> "split_with", s2 |-> 1, e2 |-> 1, pick |-> 0], Step("match_f", MText, 0) >>,
             << [f |-> "after", pick |-> 0], Step("first_b", MText, 0), Step("match_b", MText, 0) >> >>

MCOps(L) ==
  LET n == NTok(L)  all == << << 0, n - 1 >> >>
      sels == Sels(n)
      x(fs, ms) == FlatMap(LAMBDA f : Cross(LAMBDA s, m : OpM(f, s, m), sels, ms), fs)
  IN CASE Prop = "C07" -> Cross(LAMBDA s, m : OpM("both", s, m), all, Elem)
                          \o FlatMap(LAMBDA m : << FindOp(m) >>, Elem)
                          \o Cross(LAMBDA s, m : OpM("match_b", s, m), Singles(n), SubSeq(Elem, 1, 8))
       [] Prop = "C08" -> Cross(LAMBDA s, m : OpM("both", s, m), all, Combos)
       [] Prop = "C09" -> x(<< "find_by", "find_first", "both", "finish" >>, Look)
       [] Prop = "C10" -> x(<< "split_by" >>, Look \o << MAttr("tag"), MOr(<< MWs, MEq("A", 2) >>) >>)
                          \o Cross(LAMBDA s, u : Op2("split_with", s, u), sels, sels)
                          \o << Op("split_other", all[1]) >>
       [] Prop = "C11" -> x(<< "match_f", "match_b", "first_f", "first_b" >>, Look)
       [] Prop = "C12" -> x(<< "trim", "trim_s", "trim_e" >>, Look)
                          \o FlatMap(LAMBDA s : << Op("after", s) >>, sels)
                          \o << [f |-> "whole"] >>
                          \o Cross(LAMBDA s, st : [f |-> "chain", s |-> s[1], e |-> s[2], steps |-> st], sels, Chains)
                          \o (IF n > 3 THEN <<>>
                              ELSE Cross(LAMBDA s, u : [f |-> "eq", s |-> s[1], e |-> s[2], s2 |-> u[1], e2 |-> u[2], other |-> 0], sels, sels)
                                   \o Cross(LAMBDA s, u : [f |-> "eq", s |-> s[1], e |-> s[2], s2 |-> u[1], e2 |-> u[2], other |-> 1], sels, << << 0, 0 >>, << 0, n - 1 >> >>))
=============================================================================
