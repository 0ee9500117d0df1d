------------------------------- MODULE MC_Pos -------------------------------
(* C03: every list of up to n inputs x size functions; C04: x attributes given with the inputs. *)
EXTENDS MCBase
Texts == {T(a_), T(<< 49, 44, 53 >>), T(<< 233, 32, 98 >>), T(<< 128512, 120 >>), V(0), V(3)}
Asked(ty, v, id, pr) == [ty |-> ty, v |-> << v >>, id |-> id, pr |-> pr]
AttrLists == {<<>>, << Attr("A", 1, 1) >>, << Attr("A", 1, 2), Attr("A", 1, 3) >>, << Attr("A", 1, 4), Attr("B", 1, 5) >>,
              << Attr("B", 2, 6), Attr("A", 2, 7), Attr("B", 2, 8) >>, << Attr("tag", WORD, 0) >>, << Attr("char", 120, 0), Attr("C", 1, 9) >>,
              << Attr("kw", 1, 0) >>,
              \* prepared attributes that were asked for other types before
              << Asked("A", 1, 10, << "B", "C", "tag" >>), Asked("B", 1, 11, << "A", "C" >>), Asked("C", 1, 12, << "A", "B", "kw" >>) >>,
              << Asked("kw", 2, 0, << "clause", "A" >>), Asked("tag", WORD, 0, << "char", "B" >>), Attr("clause", 1, 0) >>}
Bases == {T(a_), T(<< 49, 98 >>), V(2)}
C03Pieces == {With(t, << Attr("A", 1, 1) >>) : t \in Texts} \cup {T(a_), V(3)}
C04Pieces == {With(t, as) : t \in Bases, as \in AttrLists}
MCPrepare(i) == IF Prop = "C03" THEN Grow(i, C03Pieces, ByTier(3, 4)) ELSE Grow(i, C04Pieces, ByTier(2, 3))
MCReady(i) == Len(i) > 0
MCSizes(i) == IF Prop = "C03" THEN {"u8", "u16", "chars", "one", "zero", "mix"} ELSE {"u8"}
MCVias(i) == IF Prop = "C03" /\ Len(i) < 3 THEN {"input", "tokens"} ELSE {"input"}
MCOwn == IF Prop = "C03" THEN << "ops" >> ELSE << "create", "ops" >>
MCOps(L) ==
  IF Prop = "C03"
  THEN << FindOp(MAttr("A")), FindOp(MText), FindOp(MAttr("tag")), FindOp(MAttr("char")), FindOp(MSeq(<< MText, MText >>)),
          FindOp(MSeq(<< MAttr("A"), MAttr("A") >>)), FindOp(MOr(<< MAttr("A"), MText >>)) >>
  ELSE FlatMap(LAMBDA ty : << QueryOp(ty), FindOp(MAttr(ty)) >>, << "A", "B", "C", "tag", "char", "kw" >>)
       \o << [f |-> "extract", a |-> Attr("A", 1, 5), tries |-> << "B", "C", "A" >>],
             [f |-> "extract", a |-> Attr("B", 2, 6), tries |-> << "A", "tag" >>],
             [f |-> "extract", a |-> Attr("tag", 3, 0), tries |-> << "char", "tag" >>] >>
=============================================================================
