------------------------------- MODULE LNDecl -------------------------------
(***************************************************************************)
(* Declarative statements of the properties: what must hold of a line, a   *)
(* run or a result, written without reference to how the specification     *)
(* (or the code) computes it.  The state machine is checked against these. *)
(***************************************************************************)
EXTENDS LNOps

\* ---- C01: nothing lost, invented or reordered ------------------------------
\* number of tokens from offset o that make up a text of `left` characters, -1 if there is no such number
RECURSIVE TextTokens(_, _, _)
TextTokens(toks, o, left) ==
  IF left = 0 THEN 0
  ELSE IF o + 1 > Len(toks) THEN -1
  ELSE LET t == toks[o + 1] IN
       IF t.k # "T" \/ t.cp = <<>> \/ Len(t.cp) > left THEN -1
       ELSE LET r == TextTokens(toks, o + 1, left - Len(t.cp)) IN IF r = -1 THEN -1 ELSE r + 1

\* offsets at which the inputs' tokens start; -1 from the first input that cannot be attributed
CutOffsets(inputs, toks) ==
  LET step(acc, inp) ==
        LET o == acc[Len(acc)] IN
        IF o = -1 THEN Append(acc, -1)
        ELSE IF inp.k = "V" THEN Append(acc, IF o < Len(toks) /\ toks[o + 1].k = "V" THEN o + 1 ELSE -1)
        ELSE LET n == TextTokens(toks, o, Len(inp.cp)) IN
             Append(acc, IF n > 0 /\ FlattenSeq([k \in 1..n |-> toks[o + k].cp]) = inp.cp THEN o + n ELSE -1)
  IN FoldLeft(step, << 0 >>, inputs)

Lossless(inputs, toks) ==
  LET o == CutOffsets(inputs, toks) IN o[Len(o)] = Len(toks)

\* the tokens of each input (when lossless)
Cut(inputs, toks) ==
  LET o == CutOffsets(inputs, toks) IN [i \in 1..Len(inputs) |-> SubSeq(toks, o[i] + 1, o[i + 1])]

\* ---- C03: positions tile ------------------------------------------------------
Tiled(L, inputs, szf) ==
  LET per == Cut(inputs, L.toks)
      sizes == TokSizes(inputs, per, szf)
  IN /\ Len(L.pos) = NTok(L)
     /\ \A k \in 1..NTok(L) : /\ L.pos[k][2] - L.pos[k][1] = sizes[k]
                              /\ L.pos[k][1] = (IF k = 1 THEN 0 ELSE L.pos[k - 1][2])

\* ---- C05: a run only adds ------------------------------------------------------
IsSubBag(a, b) == \A k \in DOMAIN a : Cardinality({j \in DOMAIN a : a[j] = a[k]}) <= Cardinality({j \in DOMAIN b : b[j] = a[k]})

CellsExtend(ty, old, new) ==
  /\ Len(old) <= Len(new)
  /\ \A k \in DOMAIN old : /\ old[k].s = new[k].s /\ old[k].e = new[k].e
                           /\ IF ty = "pos" THEN IsSubBag(old[k].vs, new[k].vs) ELSE IsPrefix(old[k].vs, new[k].vs)
  /\ \A k \in DOMAIN new : new[k].vs # <<>>
  /\ \A j, k \in DOMAIN new : j # k => << new[j].s, new[j].e >> # << new[k].s, new[k].e >>

OnlyAdds(old, new, ty) ==
  /\ \A t \in Types \ {ty} : old[t] = new[t]
  /\ CellsExtend(ty, old[ty], new[ty])

\* what was added: per span, its new values (a bag for pos)
RECURSIVE BagMinus(_, _)
BagMinus(b, a) ==
  IF a = <<>> THEN b
  ELSE LET at == {k \in DOMAIN b : b[k] = a[1]} IN
       BagMinus(IF at = {} THEN b ELSE LET k == Min(at) IN SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, Len(b)), Tail(a))

Added(old, new, ty) ==
  {x \in {LET c == new[ty][k]
              at == CellIdx(old[ty], c.s, c.e)
              ovs == IF at = {} THEN <<>> ELSE old[ty][CHOOSE j \in at : TRUE].vs
          IN << c.s, c.e, IF ty = "pos" THEN BagMinus(c.vs, ovs) ELSE SubSeq(c.vs, Len(ovs) + 1, Len(c.vs)) >>
          : k \in DOMAIN new[ty]} : x[3] # <<>>}

\* ---- C02: tags and automatic attributes ------------------------------------------
\* the tag a token text must carry, stated per tag (inDigitWord: the token is an ASCII digit run of a digit word)
Letter(c) == IsAlpha(c, NoEnv)
TagRule(t) ==
  LET cp == t.cp
      allSpace == \A k \in DOMAIN cp : IsSpace(cp[k], NoEnv)
      punct == Len(cp) = 1 /\ cp[1] \in {44, 46, 33, 59, 58, 63, 39, 34}
      word == Letter(cp[1]) /\ \A k \in DOMAIN cp : k > 1 => Letter(cp[k]) \/ cp[k] \in {39, 45, 8211}
      digits == \A k \in DOMAIN cp : IsAsciiDigit(cp[k])
  IN /\ (t.tag = SPACE) = allSpace
     /\ (t.tag = PUNC) = punct
     /\ (t.tag = WORD) = word
     /\ (t.tag = NATN) => digits
     /\ digits => t.tag = NATN

AutoAttrs(L) ==
  \A i \in 0..(NTok(L) - 1) :
    LET t == Tok(L, i)
        of(ty) == FlatMap(LAMBDA c : IF c.s = i /\ c.e = i THEN c.vs ELSE <<>>, L.st[ty])
    IN IF t.k = "V" THEN of("tag") = <<>> /\ of("char") = <<>>
       ELSE /\ of("tag") = << Val(<< t.tag >>, 0) >>
            /\ of("char") = IF Len(t.cp) = 1 THEN << Val(t.cp, 0) >> ELSE <<>>

\* a digit word falls into maximal runs of digits and of letters, and single other characters: no two neighbouring
\* tokens of one word are of the same kind unless both are single other characters
DigitWordCut(w) ==
  LET ts == TokensOfWord(w, NoEnv)
      kind(t) == DigitWordKind(t.cp[1], NoEnv)
  IN IsAsciiDigit(w[1]) =>
       /\ FlattenSeq([k \in 1..Len(ts) |-> ts[k].cp]) = w
       /\ \A k \in DOMAIN ts : /\ \A j \in DOMAIN ts[k].cp : DigitWordKind(ts[k].cp[j], NoEnv) = kind(ts[k])
                               /\ kind(ts[k]) = "o" => Len(ts[k].cp) = 1
                               /\ (k > 1 /\ kind(ts[k]) # "o") => kind(ts[k]) # kind(ts[k - 1])

\* ---- C04: input attributes --------------------------------------------------------
\* values of type ty on span (s, e), in order
ValuesOn(L, ty, s, e) == FlatMap(LAMBDA c : IF c.s = s /\ c.e = e THEN c.vs ELSE <<>>, L.st[ty])
NoDoubleCells(L) == \A t \in Types : \A j, k \in DOMAIN L.st[t] :
                      j # k => << L.st[t][j].s, L.st[t][j].e >> # << L.st[t][k].s, L.st[t][k].e >>

InputAttrsOn(L, inputs, tys) ==
  LET off == CutOffsets(inputs, L.toks)
      mine(i, ty) == SelectSeq(inputs[i].at, LAMBDA a : a.ty = ty)
      asVals(as) == [k \in 1..Len(as) |-> Val(as[k].v, as[k].id)]
  IN \A ty \in tys :
       /\ \A i \in DOMAIN inputs : ValuesOn(L, ty, off[i], off[i + 1] - 1) = asVals(mine(i, ty))
       /\ \A k \in DOMAIN L.st[ty] : \E i \in DOMAIN inputs :
            L.st[ty][k].s = off[i] /\ L.st[ty][k].e = off[i + 1] - 1 /\ mine(i, ty) # <<>>

\* ---- C06: all paths agree ------------------------------------------------------------
StoredVals(L, ty) == {<< c.s, c.e, x.id, x.v >> : << c, x >> \in
                        UNION {{<< L.st[ty][k], L.st[ty][k].vs[j] >> : j \in DOMAIN L.st[ty][k].vs} : k \in DOMAIN L.st[ty]}}
NStored(L, ty) == FoldLeft(LAMBDA n, c : n + Len(c.vs), 0, L.st[ty])
ByAttr(ty) == [m |-> "attr", ty |-> ty]
OutId(o) == o[2]
OutV(o) == SubSeq(o, 4, Len(o))
FoundSet(r) == {<< r[k][1], r[k][2], OutId(r[k][3]), OutV(r[k][3]) >> : k \in DOMAIN r}

PathsAgree(L, ty) ==
  LET n == NTok(L)
      stored == StoredVals(L, ty)
      viaFind == IF n = 0 THEN <<>> ELSE FindBy(L, 0, n - 1, ByAttr(ty))
      viaF == FlatMapRange(LAMBDA i : LET r == MatchF(L, i, i, ByAttr(ty)) IN
                             [k \in 1..Len(r) |-> << i + 1, r[k][2], r[k][3] >>], 0, n - 1)
      viaB == FlatMapRange(LAMBDA i : LET r == MatchB(L, i, i, ByAttr(ty)) IN
                             [k \in 1..Len(r) |-> << r[k][1], i - 1, r[k][3] >>], 0, n - 1)
      q == Query(L, ty)
  IN /\ FoundSet(viaFind) = stored /\ Len(viaFind) = NStored(L, ty)
     /\ FoundSet(viaF) = {x \in stored : x[1] > 0} /\ Len(viaF) <= NStored(L, ty)
     /\ FoundSet(viaB) = {x \in stored : x[2] < n - 1} /\ Len(viaB) <= NStored(L, ty)
     /\ UNION {{<< q[k][1], q[k][2], q[k][4][j][1], q[k][4][j][2] >> : j \in DOMAIN q[k][4]} : k \in DOMAIN q} = stored

\* ---- C07, C08: what a matcher denotes ---------------------------------------------------
\* all its matches in the line, in direction d, as spans with outputs
RECURSIVE Denotes(_, _, _)
Denotes(m, d, L) ==
  LET vals(ty, keep(_), out(_)) ==
        UNION {{[s |-> L.st[ty][k].s, e |-> L.st[ty][k].e, o |-> out(L.st[ty][k].vs[j])]
                 : j \in {j \in DOMAIN L.st[ty][k].vs : keep(L.st[ty][k].vs[j])}} : k \in DOMAIN L.st[ty]}
      near(x) == IF d = "F" THEN x.s ELSE x.e
      far(x) == IF d = "F" THEN x.e ELSE x.s
      step == IF d = "F" THEN 1 ELSE -1
      span(x, y) == IF d = "F" THEN [s |-> x.s, e |-> y.e] ELSE [s |-> y.s, e |-> x.e]
      next(X, Y) == {[s |-> span(p[1], p[2]).s, e |-> span(p[1], p[2]).e, o |-> p[1].o \o p[2].o]
                      : p \in {p \in X \X Y : near(p[2]) = far(p[1]) + step}}
      both(X, Y) == {[s |-> p[1].s, e |-> p[1].e, o |-> p[1].o \o p[2].o]
                      : p \in {p \in X \X Y : p[1].s = p[2].s /\ p[1].e = p[2].e}}
      tuple(n, X) == {[x EXCEPT !.o = << 3, n >> \o @] : x \in X}
      D(k) == Denotes(m.xs[k], d, L)
  IN CASE m.m = "attr" -> vals(m.ty, Always, OutVal)
       [] m.m = "eq"   -> vals(m.ty, LAMBDA x : Equal(m.ty, x.v, m.v), Unit)
       [] m.m = "ws"   -> vals("tag", LAMBDA x : x.v = << SPACE >>, Unit)
       [] m.m = "has"  -> {x \in vals(m.ty, LAMBDA x : \E k \in DOMAIN m.vs : Equal(m.ty, m.vs[k], x.v), OutVal) : x.s = x.e}
       [] m.m = "text" -> {[s |-> i, e |-> i, o |-> OutText(Tok(L, i).cp)] : i \in {i \in 0..(NTok(L)-1) : Tok(L, i).k = "T"}}
       [] m.m = "seq"  -> tuple(Len(m.xs), IF Len(m.xs) = 2 THEN next(D(1), D(2)) ELSE next(next(D(1), D(2)), D(3)))
       [] m.m = "all"  -> tuple(Len(m.xs), IF Len(m.xs) = 2 THEN both(D(1), D(2)) ELSE both(both(D(1), D(2)), D(3)))
       [] m.m = "or"   -> UNION {{[x EXCEPT !.o = << 4, k >> \o @]
                                   : x \in {x \in D(k) : \A j \in 1..(k-1) : \A y \in D(j) : near(y) # near(x)}}
                                 : k \in DOMAIN m.xs}

\* what looking at token i in direction d must report
DenotedAt(m, d, i, L) ==
  {<< IF d = "F" THEN x.e ELSE x.s, x.o >> : x \in {x \in Denotes(m, d, L) : IF d = "F" THEN x.s = i ELSE x.e = i}}
GoIsDenotation(m, L) ==
  \A d \in {"F", "B"} : \A i \in 0..(NTok(L) - 1) :
    LET r == Go(m, d, i, L) IN {<< r[k].to, r[k].o >> : k \in DOMAIN r} = DenotedAt(m, d, i, L)

\* ---- C09 - C12: selections ---------------------------------------------------------------
AsSet(r) == {r[k] : k \in DOMAIN r}
Triple(x) == << x.s, x.e, x.o >>

FindComplete(L, s, e, m, r) ==
  /\ AsSet(r) = {Triple(x) : x \in {x \in Denotes(m, "F", L) : s <= x.s /\ x.s <= e}}
  /\ \A j, k \in DOMAIN r : j < k => r[j][1] <= r[k][1]

BothComplete(L, s, e, m, r) ==
  AsSet(r) = {Triple(x) : x \in {x \in Denotes(m, "F", L) : s <= x.s /\ x.s <= e}}
             \cup {Triple(x) : x \in {x \in Denotes(m, "B", L) : s <= x.e /\ x.e <= e}}

Covered(L, s, e, m) == UNION {x.s..x.e : x \in {x \in Denotes(m, "F", L) : s <= x.s /\ x.s <= e}}
SplitExact(L, s, e, m, r) ==
  /\ UNION {r[k][1]..r[k][2] : k \in DOMAIN r} = (s..e) \ Covered(L, s, e, m)
  /\ \A k \in DOMAIN r : r[k][1] <= r[k][2]
  /\ \A k \in DOMAIN r : k > 1 => r[k-1][2] + 1 < r[k][1]

SplitWithExact(s, e, s2, e2, r) ==
  LET toks(x) == IF x = NoSel THEN {} ELSE x[1]..x[2] IN
  /\ Len(r) = 2
  /\ toks(r[1]) = {t \in s..e : t < s2}
  /\ toks(r[2]) = {t \in s..e : t > e2}

ExtendsForwards(L, s, e, m, r) ==
  AsSet(r) = {<< s, x.e, x.o >> : x \in {x \in Denotes(m, "F", L) : x.s = e + 1}}
ExtendsBackwards(L, s, e, m, r) ==
  AsSet(r) = {<< x.s, e, x.o >> : x \in {x \in Denotes(m, "B", L) : x.e = s - 1}}

\* at most one match is taken from each end, and only what it covers disappears
TrimExact(L, s, e, m, atStart, atEnd, r) ==
  LET f == {x.e : x \in {x \in Denotes(m, "F", L) : x.s = s}}
      b == {x.s : x \in {x \in Denotes(m, "B", L) : x.e = e}}
      left == IF r = <<>> THEN {} ELSE r[1][1]..r[1][2]
  IN /\ Len(r) <= 1 /\ (r # <<>> => r[1][1] <= r[1][2])
     /\ \E fe \in (IF atStart /\ f # {} THEN f ELSE {s - 1}), bs \in (IF atEnd /\ b # {} THEN b ELSE {e + 1}) :
          left = {t \in s..e : t > fe /\ t < bs}

InLine(L, r) == \A k \in DOMAIN r : r[k] # NoSel => 0 <= r[k][1] /\ r[k][1] <= r[k][2] /\ r[k][2] < NTok(L)

\* what must hold of the result of an operation
OpExact(L, op, r) ==
  CASE op.f \in {"find_by", "finish"} -> FindComplete(L, op.s, op.e, op.m, r) /\ InLine(L, r)
    [] op.f = "find_first" -> Len(r) <= 1 /\ InLine(L, r) /\ (r = <<>>) = (FindBy(L, op.s, op.e, op.m) = <<>>)
    [] op.f = "both"       -> BothComplete(L, op.s, op.e, op.m, r) /\ InLine(L, r)
    [] op.f = "match_f"    -> ExtendsForwards(L, op.s, op.e, op.m, r) /\ InLine(L, r)
    [] op.f = "match_b"    -> ExtendsBackwards(L, op.s, op.e, op.m, r) /\ InLine(L, r)
    [] op.f = "first_f"    -> r = FirstOnly(MatchF(L, op.s, op.e, op.m))
    [] op.f = "first_b"    -> r = FirstOnly(MatchB(L, op.s, op.e, op.m))
    [] op.f = "split_by"   -> SplitExact(L, op.s, op.e, op.m, r) /\ InLine(L, r)
    [] op.f = "split_with" -> SplitWithExact(op.s, op.e, op.s2, op.e2, r) /\ InLine(L, r)
    [] op.f = "trim"       -> TrimExact(L, op.s, op.e, op.m, TRUE, TRUE, r) /\ InLine(L, r)
    [] op.f = "trim_s"     -> TrimExact(L, op.s, op.e, op.m, TRUE, FALSE, r) /\ InLine(L, r)
    [] op.f = "trim_e"     -> TrimExact(L, op.s, op.e, op.m, FALSE, TRUE, r) /\ InLine(L, r)
    [] op.f = "chain"      -> InLine(L, r)
    [] op.f = "after"      -> /\ (IF r = <<>> THEN {} ELSE r[1][1]..r[1][2]) = {t \in 0..(NTok(L)-1) : t > op.e}
                              /\ InLine(L, r)
    [] OTHER -> TRUE

\* ---- C14, C16, C18: pointwise resolvers -----------------------------------------------------
SingleTokens(as) == \A k \in DOMAIN as : as[k].s = as[k].e
AsgVals(as, i) == LET mine == SelectSeq(as, LAMBDA a : a.s = i) IN [k \in 1..Len(mine) |-> Val(mine[k].v, mine[k].id)]

TextMatchExact(L, env, r, as) ==
  /\ SingleTokens(as)
  /\ \A i \in 0..(NTok(L)-1) :
       LET same(t) == IF r.ci = 1 THEN t.lkey = env.lo[i + 1] ELSE t.key = Tok(L, i).cp
           want == UNION {{<< k, j >> : j \in DOMAIN r.tab[k].vs} : k \in {k \in DOMAIN r.tab : same(r.tab[k])}}
       IN IF Tok(L, i).k = "V" THEN AsgVals(as, i) = <<>>
          ELSE /\ Len(AsgVals(as, i)) = Cardinality(want)
               /\ {AsgVals(as, i)[k].id : k \in DOMAIN AsgVals(as, i)} = {r.tab[w[1]].vs[w[2]].id : w \in want}

KeywordsExact(L, env, r, as) ==
  LET has(list, i) == env.lo[i + 1] \in {list[k] : k \in DOMAIN list} IN
  /\ SingleTokens(as)
  /\ \A i \in 0..(NTok(L)-1) :
       LET got == AsgVals(as, i)
           text == Tok(L, i).k = "T"
       IN /\ Len(got) <= 1
          /\ (got = << Val(<< 1 >>, 0) >>) = (text /\ has(r.c, i))
          /\ (got = << Val(<< 2 >>, 0) >>) = (text /\ ~has(r.c, i) /\ has(r.t, i))
          /\ (got = << Val(<< 3 >>, 0) >>) = (text /\ ~has(r.c, i) /\ ~has(r.t, i) /\ has(r.a, i))

PosExact(L, env, as) ==
  /\ SingleTokens(as)
  /\ \A i \in 0..(NTok(L)-1) :
       LET got == AsgVals(as, i)
           word == Tok(L, i).k = "T" /\ HasVal(L, "tag", i, << WORD >>)
           want == IF env.dict[i + 1] = << -1 >> THEN {<< Noun >>} ELSE {<< env.dict[i + 1][k] >> : k \in DOMAIN env.dict[i + 1]}
       IN {got[k].v : k \in DOMAIN got} = IF word THEN want ELSE {}

\* ---- C15: amounts -----------------------------------------------------------------------------
AmountsExact(L, r, as) ==
  LET c == AmountCfg(r)
      isDel(i) == HasCharOf(L, i, c.del)
      isDec(i) == HasCharOf(L, i, << c.dec >>)
      nums == {i \in 0..(NTok(L)-1) : IsNum(L, i)}
      inner(a) == (a.s)..(a.e)
      decs(a) == {i \in inner(a) : ~IsNum(L, i) /\ ~isDel(i)}
  IN /\ \A k \in DOMAIN as :
          LET a == as[k] IN
          /\ a.s \in nums /\ a.e \in nums
          /\ \A i \in inner(a) : IF (i - a.s) % 2 = 0 THEN i \in nums ELSE isDel(i) \/ isDec(i)
          /\ Cardinality(decs(a)) <= 1
          \* nothing more could have been read
          /\ ~(isDel(a.e + 1) /\ (a.e + 2) \in nums)
          /\ (isDec(a.e + 1) /\ ~isDel(a.e + 1) /\ (a.e + 2) \in nums) => decs(a) # {}
          \* the value is what is written
          /\ LET digits == FlatMapRange(LAMBDA i : IF i \in nums THEN Tok(L, i).cp ELSE IF i \in decs(a) THEN << 46 >> ELSE <<>>, a.s, a.e)
                 lead == Len(digits) - Len(a.v)
             IN lead >= 0 /\ SubSeq(digits, lead + 1, Len(digits)) = a.v /\ \A k2 \in 1..lead : digits[k2] = 48
     /\ \A j, k \in DOMAIN as : j < k => as[j].e < as[k].s
     \* every number written is in an amount
     /\ \A i \in nums : \E k \in DOMAIN as : i \in inner(as[k])

\* ---- C17: clauses -------------------------------------------------------------------------------
ClausesExact(L, as) ==
  LET n == NTok(L)
      sep == Covered(L, 0, n - 1, [m |-> "attr", ty |-> "kw"]) \cup Covered(L, 0, n - 1, [m |-> "eq", ty |-> "tag", v |-> << PUNC >>])
      space(i) == HasVal(L, "tag", i, << SPACE >>)
      free == (0..(n - 1)) \ sep
      heads == {i \in free : i - 1 \notin free}
      tailOf(h) == Max({e \in h..(n-1) : \A i \in h..e : i \in free})
      startOf(h) == IF space(h) THEN h + 1 ELSE h
      endOf(h) == IF space(tailOf(h)) THEN tailOf(h) - 1 ELSE tailOf(h)
      kept == {h \in heads : startOf(h) <= endOf(h)}
      kwBefore(h) == IF h = 0 \/ ~\E k \in DOMAIN L.st["kw"] : L.st["kw"][k].e = h - 1 THEN 0 ELSE KeywordBefore(L, h)
      role(h) ==
        IF kwBefore(h) = ConditionStart THEN Condition
        ELSE IF Cardinality(heads) = 1 THEN Independent
        ELSE IF kwBefore(h) = Then THEN TrailingEffect
        ELSE IF \E g \in kept : g < h /\ kwBefore(g) = ConditionStart THEN TrailingEffect ELSE LeadingEffect
  IN /\ {<< as[k].s, as[k].e, as[k].v[1] >> : k \in DOMAIN as} = {<< startOf(h), endOf(h), role(h) >> : h \in kept}
     /\ Len(as) = Cardinality(kept)
     /\ \A j, k \in DOMAIN as : j < k => as[j].e < as[k].s

RunExact(L, env, r) ==
  LET as == RunAsgs(L, env, r) IN
  CASE r.r = "text"   -> TextMatchExact(L, env, r, as)
    [] r.r = "kw"     -> KeywordsExact(L, env, r, as)
    [] r.r = "pos"    -> PosExact(L, env, as)
    [] r.r = "amount" -> AmountsExact(L, r, as)
    [] r.r = "clause" -> ClausesExact(L, as)
    [] OTHER -> TRUE

\* ---- C13: display ---------------------------------------------------------------------------------
RECURSIVE SplitLines(_)
SplitLines(t) ==
  LET at == {k \in DOMAIN t : t[k] = 10} IN
  IF at = {} THEN << t >> ELSE LET k == Min(at) IN << SubSeq(t, 1, k - 1) >> \o SplitLines(SubSeq(t, k + 1, Len(t)))

\* when no token shows a line break and every character is one column wide: each drawn bracket lies exactly
\* under the characters of its span
DisplayExact(L, env, tys, text) ==
  LET lines == SplitLines(text)
      head == lines[1]
      shown(i) == TokShown(Tok(L, i))
      simple == \A i \in 0..(NTok(L)-1) : env.wid[i + 1] = Len(shown(i)) /\ \A k \in DOMAIN shown(i) : shown(i)[k] # 10
      firstCol(line) == Min({k \in DOMAIN line : line[k] = Corner1})
      lastCol(line) == Max({k \in DOMAIN line : line[k] \in {Corner1, Corner2, Dash}})
      cells == FlatMap(LAMBDA ty : FlatMap(LAMBDA c : [k \in 1..Len(c.vs) |-> << ty, c, c.vs[Len(c.vs) + 1 - k] >>], L.st[ty]), tys)
      underText(c) == FlattenSeq([k \in 1..(c.e - c.s + 1) |-> (IF k = 1 THEN <<>> ELSE << 32, 32 >>) \o shown(c.s + k - 1)])
  IN simple =>
       /\ Len(lines) = 1 + Len(cells)
       /\ \A k \in DOMAIN cells :
            LET line == lines[k + 1]  c == cells[k][2]
                a == firstCol(line)  b == lastCol(line)
            IN /\ \A j \in 1..(a-1) : line[j] = 32
               /\ b <= Len(head) /\ SubSeq(head, a, b) = underText(c)
               /\ SubSeq(line, b + 1, Len(line)) = Label(cells[k][1], cells[k][3])
               /\ (b > a) = (line[b] = Corner2)

\* ---- C19: independence ------------------------------------------------------------------------------
Independent2(r1, r2) == RunType(r1) \notin Reads(r2) /\ RunType(r2) \notin Reads(r1)
RunsCommute(L, env, r1, r2) ==
  LET a == ApplyRun(L, env, r1)  ab == ApplyRun(a, env, r2)
      b == ApplyRun(L, env, r2)  ba == ApplyRun(b, env, r1)
  IN Independent2(r1, r2) =>
       /\ Added(L.st, a.st, RunType(r1)) = Added(b.st, ba.st, RunType(r1))
       /\ Added(L.st, b.st, RunType(r2)) = Added(a.st, ab.st, RunType(r2))
       /\ RunType(r1) # RunType(r2) => ab = ba
RunRepeats(L, env, r) ==
  RunType(r) \notin Reads(r) =>
    LET a == ApplyRun(L, env, r)  aa == ApplyRun(a, env, r) IN
    Added(L.st, a.st, RunType(r)) = Added(a.st, aa.st, RunType(r))

\* ---- everything is relative to the line ---------------------------------------------
\* Putting k custom tokens of size 1 without attributes, which nothing matches, in front of a line changes nothing but
\* where it is: what every operation gives is moved k tokens (and k positions) on.  The harness uses this to carry
\* programs out behind very many tokens.
Fronts(k) == [j \in 1..k |-> [k |-> "V", sz |-> 1, at |-> <<>>]]
ShiftCells(cs, k) == [j \in 1..Len(cs) |-> [cs[j] EXCEPT !.s = @ + k, !.e = @ + k]]
ShiftStore(st, k) == [t \in Types |-> ShiftCells(st[t], k)]
ShiftLine(L, k) ==
  [toks |-> [j \in 1..k |-> ValueTok] \o L.toks,
   pos  |-> [j \in 1..k |-> << j - 1, j >>] \o [j \in 1..Len(L.pos) |-> << L.pos[j][1] + k, L.pos[j][2] + k >>],
   st   |-> ShiftStore(L.st, k)]
ShiftRun(r, k) == IF r.r = "assign" THEN [r EXCEPT !.as = [j \in 1..Len(r.as) |-> [r.as[j] EXCEPT !.s = @ + k, !.e = @ + k]]] ELSE r
ShiftsRun(r) == r.r \notin {"full", "clause"}
ShiftsOp(op) == op.f # "whole"
ShiftOp(op, k) ==
  LET one(o) == IF "s2" \in DOMAIN o THEN [o EXCEPT !.s2 = @ + k, !.e2 = @ + k] ELSE o
      two == IF "s" \in DOMAIN op THEN [one(op) EXCEPT !.s = @ + k, !.e = @ + k] ELSE op
  IN IF op.f = "chain" THEN [two EXCEPT !.steps = [j \in 1..Len(op.steps) |-> one(op.steps[j])]] ELSE two
\* where a result tells tokens or positions
ShiftResult(op, r, k) ==
  IF op.f \in {"extract", "eq", "disp"} THEN r
  ELSE IF op.f = "toks" THEN [j \in 1..k |-> << 0, 0, <<>> >>] \o r
  ELSE [j \in 1..Len(r) |-> IF r[j][1] = -1 THEN r[j] ELSE [r[j] EXCEPT ![1] = @ + k, ![2] = @ + k]]
ShiftedDisplay(L, env, env2, tys, k) ==
  LET d1 == DisplayLines(L, env.wid, tys)  d2 == DisplayLines(ShiftLine(L, k), env2.wid, tys) IN
  /\ Len(d1) = Len(d2)
  /\ d2[1] = FlattenSeq([j \in 1..k |-> << 60, 62, 32, 32 >>]) \o d1[1]
  /\ \A j \in 2..Len(d1) : d2[j] = Rep(32, 4 * k) \o d1[j]
ShiftLaw(L, env, op, k) ==
  (NTok(L) > 0 /\ ShiftsOp(op)) =>
  LET L2 == ShiftLine(L, k)  env2 == ModelEnv(L2) IN
  IF op.f = "disp" THEN ShiftedDisplay(L, env, env2, op.tys, k)
  ELSE LET a == Eval(L, env, op)  b == Eval(L2, env2, ShiftOp(op, k)) IN
       a.p = b.p /\ b.r = ShiftResult(op, a.r, k)
ShiftRunLaw(L, env, r, k) ==
  (NTok(L) > 0 /\ ShiftsRun(r)) =>
  LET L2 == ShiftLine(L, k) IN RunStore(L2, ModelEnv(L2), ShiftRun(r, k)) = ShiftStore(RunStore(L, env, r), k)
=============================================================================
