------------------------------- MODULE LNOps -------------------------------
(***************************************************************************)
(* One run of a resolver as a transition of the line, and the operations   *)
(* a user can observe a line with.  Everything that is a fact about the    *)
(* outside world (lower-casing, dictionary, display widths) comes in env:  *)
(*   env.lo, env.dict, env.wid : Seq, one entry per token.                 *)
(***************************************************************************)
EXTENDS LNResolvers

RunType(r) ==
  CASE r.r = "echo" -> r.to
    [] r.r \in {"assign", "full", "text"} -> r.ty
    [] OTHER -> r.r

\* the assignments a run makes to line L
RunAsgs(L, env, r) ==
  LET lo(i) == env.lo[i + 1]
      dict(i) == env.dict[i + 1]
  IN CASE r.r = "assign" -> r.as
       [] r.r = "full"   -> << Asg(0, NTok(L) - 1, r.v, r.id) >>
       [] r.r = "echo"   ->
            LET f == FindBy(L, 0, NTok(L) - 1, [m |-> "attr", ty |-> r.ty]) IN
            [k \in 1..Len(f) |-> Asg(f[k][1], f[k][2], SubSeq(f[k][3], 4, Len(f[k][3])), f[k][3][2] + r.add)]
       [] r.r = "amount" -> Amounts(L, r)
       [] r.r = "kw"     -> Keywords(L, lo, r)
       [] r.r = "clause" -> Clauses(L)
       [] r.r = "text"   -> TextMatch(L, lo, r)
       [] r.r = "pos"    -> PosTags(L, dict, "once" \in DOMAIN r)

\* part-of-speech tags of one span are a bag: kept sorted
SortPos(cells) == [k \in 1..Len(cells) |-> [cells[k] EXCEPT !.vs = SortSeq(@, LAMBDA a, b : a.v[1] < b.v[1])]]

RunStore(L, env, r) ==
  IF NTok(L) = 0 THEN L.st
  ELSE LET st == InsertAll(L.st, RunType(r), RunAsgs(L, env, r)) IN
       IF RunType(r) = "pos" THEN [st EXCEPT !["pos"] = SortPos(@)] ELSE st

ApplyRun(L, env, r) == [L EXCEPT !.st = RunStore(L, env, r)]

\* which attribute types a resolver reads
Reads(r) ==
  CASE r.r = "amount" -> {"char", "tag"}
    [] r.r = "clause" -> {"kw", "tag"}
    [] r.r = "pos"    -> {"tag"}
    [] r.r = "echo"   -> {r.ty}
    [] OTHER          -> {}

\* what a run added to one type: new values of old cells and new cells
Delta(old, new) ==
  FlatMap(LAMBDA c : LET at == CellIdx(old, c.s, c.e)
                         have == IF at = {} THEN 0 ELSE Len(old[CHOOSE k \in at : TRUE].vs)
                     IN IF Len(c.vs) = have THEN <<>>
                        ELSE << [s |-> c.s, e |-> c.e, vs |-> SubSeq(c.vs, have + 1, Len(c.vs))] >>, new)

\* ---- observations --------------------------------------------------------
Ok(r) == [p |-> 0, r |-> r]
Panics == [p |-> 1, r |-> <<>>]
NoBase == [p |-> 3, r |-> <<>>]     \* the harness cannot make the selection

Extract(a, tries) ==
  LET hit == {k \in DOMAIN tries : tries[k] = a.ty}
      n == IF hit = {} THEN Len(tries) ELSE Min(hit)
  IN [k \in 1..n |-> IF tries[k] = a.ty THEN << 1, a.id, a.v >> ELSE << 0, 0, <<>> >>]

LineOps == {"toks", "query", "find", "disp", "extract", "whole"}

RECURSIVE Eval(_, _, _)

\* operations one after the other: each is applied to one of the selections the one before it gave
RECURSIVE Chain(_, _, _, _, _, _)
Chain(L, env, s, e, steps, k) ==
  LET r == Eval(L, env, [s |-> s, e |-> e] @@ steps[k]) IN
  IF r.p # 0 \/ k = Len(steps) THEN r
  ELSE LET some == SelectSeq(r.r, LAMBDA x : x[1] >= 0) IN
       IF some = <<>> THEN Ok(<<>>)
       ELSE LET x == some[1 + (steps[k].pick % Len(some))] IN Chain(L, env, x[1], x[2], steps, k + 1)

Eval(L, env, op) ==
  IF op.f \notin LineOps /\ NTok(L) = 0 THEN NoBase
  ELSE
  CASE op.f = "toks"       -> Ok(ToksOut(L))
    [] op.f = "query"      -> Ok(Query(L, op.ty))
    [] op.f = "find"       -> Ok(Find(L, op.m))
    [] op.f = "disp"       -> Ok(Display(L, env.wid, op.tys))
    [] op.f = "extract"    -> Ok(Extract(op.a, op.tries))
    [] op.f = "whole"      -> Ok(<< IF NTok(L) = 0 THEN -1 ELSE NTok(L) >>)
    [] op.f = "chain"      -> Chain(L, env, op.s, op.e, op.steps, 1)
    [] op.f \in {"find_by", "finish"} -> Ok(FindBy(L, op.s, op.e, op.m))
    [] op.f = "find_first" -> Ok(FirstOnly(FindBy(L, op.s, op.e, op.m)))
    [] op.f = "both"       -> Ok(FindBoth(L, op.s, op.e, op.m))
    [] op.f = "match_f"    -> Ok(MatchF(L, op.s, op.e, op.m))
    [] op.f = "first_f"    -> Ok(FirstOnly(MatchF(L, op.s, op.e, op.m)))
    [] op.f = "match_b"    -> Ok(MatchB(L, op.s, op.e, op.m))
    [] op.f = "first_b"    -> Ok(FirstOnly(MatchB(L, op.s, op.e, op.m)))
    [] op.f = "split_by"   -> Ok(SplitBy(L, op.s, op.e, op.m))
    [] op.f = "split_with" -> Ok(SplitWith(op.s, op.e, op.s2, op.e2))
    [] op.f = "split_other" -> Panics
    [] op.f = "trim"       -> Ok(Trim(L, op.s, op.e, op.m, TRUE, TRUE))
    [] op.f = "trim_s"     -> Ok(Trim(L, op.s, op.e, op.m, TRUE, FALSE))
    [] op.f = "trim_e"     -> Ok(Trim(L, op.s, op.e, op.m, FALSE, TRUE))
    [] op.f = "after"      -> Ok(After(L, op.s, op.e))
    [] op.f = "eq"         -> LET b == IF op.other = 0 /\ op.s = op.s2 /\ op.e = op.e2 THEN 1 ELSE 0 IN Ok(<< b, b, b >>)

\* ---- facts the specification itself knows ----------------------------------
WidthOf(c) == IF In(c, 768, 836) \/ c \in {8205} THEN 0
              ELSE IF In(c, 12353, 12438) \/ In(c, 12449, 12538) \/ In(c, 19968, 40879) THEN 2 ELSE 1
\* dictionary entries of the vocabulary used in models (facts of the wiktionary extract, checked against the
\* dictionary itself by the harness)
Vocab == <<
  << <<116,104,101>>, <<2,10>> >>,
  << <<114,117,110>>, <<1,3,6,13>> >>,
  << <<105,102>>, <<3,6>> >>,
  << <<119,101,108,108>>, <<1,2,5,6,13>> >>,
  << <<97>>, <<1,2,6,10,11,12,13>> >>,
  << <<100,111,110,39,116>>, <<5,6,13>> >>,
  << <<113,117,105,99,107,108,121>>, <<2>> >>,
  << <<111,102>>, <<10,13>> >>,
  << <<104,101>>, <<4,5,6,11,12>> >>,
  << <<111,117,99,104>>, <<5,6>> >>,
  << <<98>>, <<1>> >>,
  << <<120>>, <<1,3,6,12>> >>,
  << <<97,98>>, <<2,6,13>> >>,
  << <<116,104,101,110>>, <<1,2,6>> >>,
  << <<97,110,100>>, <<3,6,13>> >> >>
\* words known not to be in the dictionary: zzqx paris two
DictOf(cp) == LET hit == {k \in DOMAIN Vocab : Vocab[k][1] = cp} IN
              IF hit = {} THEN << -1 >> ELSE Vocab[CHOOSE k \in hit : TRUE][2]

ModelEnv(L) ==
  [lo   |-> [k \in 1..NTok(L) |-> Lower(L.toks[k].cp)],
   dict |-> [k \in 1..NTok(L) |-> DictOf(Lower(L.toks[k].cp))],
   wid  |-> [k \in 1..NTok(L) |-> IF L.toks[k].k = "V" THEN 2 ELSE SumOver(L.toks[k].cp, WidthOf)]]
=============================================================================
