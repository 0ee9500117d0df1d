------------------------------- MODULE LNCore -------------------------------
(***************************************************************************)
(* The line: tokens, positions and the attribute store, and the pure       *)
(* meaning of matchers, selection operations, queries and display.         *)
(*                                                                         *)
(*  token   [k |-> "T"/"V", cp |-> code points, tag |-> text tag or 0]     *)
(*  value   [v |-> Seq(Int), id |-> Int]; two values are equal (for        *)
(*          attr_eq) when v is; id tells instances apart (0 for values the *)
(*          library creates itself)                                        *)
(*  cell    [s |-> first token, e |-> last token, vs |-> Seq(value)]       *)
(*  store   [Types -> Seq(cell)]: per type the distinct spans in order of  *)
(*          first assignment, with their values in order of assignment     *)
(*  line    [toks |-> Seq(token), pos |-> Seq(<<start, end>>), st |-> store]*)
(* Token indexes are 0-based as in the API.                                *)
(***************************************************************************)
EXTENDS LNText

TypeSeq == << "char", "tag", "A", "B", "C", "kw", "clause", "amount", "pos", "Z" >>
Types == {TypeSeq[i] : i \in DOMAIN TypeSeq}

EmptyStore == [t \in Types |-> <<>>]
Val(v, id) == [v |-> v, id |-> id]

NTok(L) == Len(L.toks)
Tok(L, i) == L.toks[i + 1]

FlatMap(f(_), seq) == FlattenSeq([k \in 1..Len(seq) |-> f(seq[k])])
FlatMapRange(f(_), a, b) == FlattenSeq([k \in 1..(b - a + 1) |-> f(a + k - 1)])

\* ---- the store ----------------------------------------------------------
CellIdx(cells, s, e) == {k \in 1..Len(cells) : cells[k].s = s /\ cells[k].e = e}

InsertCell(cells, s, e, val) ==
  LET at == CellIdx(cells, s, e) IN
  IF at = {} THEN Append(cells, [s |-> s, e |-> e, vs |-> << val >>])
  ELSE LET k == CHOOSE k \in at : TRUE IN [cells EXCEPT ![k].vs = Append(@, val)]

Insert(st, ty, s, e, val) == [st EXCEPT ![ty] = InsertCell(@, s, e, val)]

\* as: Seq([s, e, v, id]) of one type, as one run of a resolver returns them
InsertAll(st, ty, as) ==
  [st EXCEPT ![ty] = FoldLeft(LAMBDA cells, a : InsertCell(cells, a.s, a.e, Val(a.v, a.id)), @, as)]

\* ---- creating a line ----------------------------------------------------
\* inputs: Seq([k |-> "T", cp, at] or [k |-> "V", sz, at]); at: Seq([ty, v, id])
\* toksPer: for each input its tokens
Tiles(sizes) ==
  FoldLeft(LAMBDA acc, s : [at |-> acc.at + s, tiles |-> Append(acc.tiles, << acc.at, acc.at + s >>)],
           [at |-> 0, tiles |-> <<>>], sizes).tiles

TokSizes(inputs, toksPer, szf) ==
  FlattenSeq([i \in 1..Len(inputs) |->
     IF inputs[i].k = "V" THEN << inputs[i].sz >>
     ELSE [j \in 1..Len(toksPer[i]) |-> SizeOf(szf, toksPer[i][j].cp)]])

AutoStore(toks) ==
  LET n == Len(toks)
      T == SelectSeq([i \in 1..n |-> i], LAMBDA i : toks[i].k = "T")
      O == SelectSeq(T, LAMBDA i : Len(toks[i].cp) = 1)
  IN [EmptyStore EXCEPT
        !["tag"]  = TLCEval([k \in 1..Len(T) |-> [s |-> T[k]-1, e |-> T[k]-1, vs |-> << Val(<< toks[T[k]].tag >>, 0) >>]]),
        !["char"] = TLCEval([k \in 1..Len(O) |-> [s |-> O[k]-1, e |-> O[k]-1, vs |-> << Val(toks[O[k]].cp, 0) >>]])]

\* first token index of every input, and one past the end
InputOffsets(toksPer) == FoldLeft(LAMBDA acc, ts : Append(acc, acc[Len(acc)] + Len(ts)), << 0 >>, toksPer)

WithInputAttrs(st0, inputs, toksPer) ==
  LET off == TLCEval(InputOffsets(toksPer))
      ins(st, i) == FoldLeft(LAMBDA st2, a : Insert(st2, a.ty, off[i], off[i+1] - 1, Val(a.v, a.id)),
                             st, inputs[i].at)
  IN FoldLeft(ins, st0, [i \in 1..Len(inputs) |-> i])

MakeLine(inputs, toksPer, szf) ==
  LET toks == FlattenSeq(toksPer) IN
  [toks |-> toks,
   pos  |-> Tiles(TokSizes(inputs, toksPer, szf)),
   st   |-> WithInputAttrs(AutoStore(toks), inputs, toksPer)]

InputTokens(inp) == IF inp.k = "V" THEN << ValueTok >> ELSE TokensOfText(inp.cp)

Refused(inputs) == \E i \in 1..Len(inputs) : inputs[i].k = "T" /\ inputs[i].cp = <<>>

CreateLine(inputs, szf) == MakeLine(inputs, [i \in 1..Len(inputs) |-> InputTokens(inputs[i])], szf)

\* ---- matchers -------------------------------------------------------------
\* A matcher at token i in direction d ("F" or "B") yields a sequence of
\* [o |-> output, to |-> token index of the match's far end].
\* Outputs are flat integer sequences: <<0>> unit, <<1, id, len>> \o v a value,
\* <<2, len>> \o cps a text, <<3, n>> \o .. a tuple, <<4, branch>> \o .. a choice.
OutVal(x) == << 1, x.id, Len(x.v) >> \o x.v
OutText(cp) == << 2, Len(cp) >> \o cp

SpanVals(L, ty, d, i, keep(_), out(_)) ==
  LET cs == SelectSeq(L.st[ty], LAMBDA c : IF d = "F" THEN c.s = i ELSE c.e = i)
      of(c) == LET vs == SelectSeq(c.vs, keep) IN
               [k \in 1..Len(vs) |-> [o |-> out(vs[k]), to |-> IF d = "F" THEN c.e ELSE c.s]]
  IN FlatMap(of, cs)

\* token directly beyond idx in direction d, -1 when there is none
Beyond(L, d, idx) == IF d = "F" THEN (IF idx + 1 < NTok(L) THEN idx + 1 ELSE -1) ELSE idx - 1

RECURSIVE Go(_, _, _, _)
GoSeq2(a, b, d, i, L) ==
  LET step(ma) == LET j == Beyond(L, d, ma.to) IN
        IF j = -1 THEN <<>>
        ELSE LET mb == Go(b, d, j, L) IN [k \in 1..Len(mb) |-> [o |-> ma.o \o mb[k].o, to |-> mb[k].to]]
  IN FlatMap(step, Go(a, d, i, L))

\* equality of values of a type; it need not be reflexive: one value of type C is like a NaN
Equal(ty, v, w) == v = w /\ ~(ty = "C" /\ v = << 4 >>)

Unit(x) == << 0 >>
Always(x) == TRUE

Go(m, d, i, L) ==
  CASE m.m = "attr" -> SpanVals(L, m.ty, d, i, Always, OutVal)
    [] m.m = "eq"   -> SpanVals(L, m.ty, d, i, LAMBDA x : Equal(m.ty, x.v, m.v), Unit)
    [] m.m = "ws"   -> SpanVals(L, "tag", d, i, LAMBDA x : x.v = << SPACE >>, Unit)
    [] m.m = "has"  ->
         LET cs == SelectSeq(L.st[m.ty], LAMBDA c : c.s = i /\ c.e = i)
             of(c) == LET vs == SelectSeq(c.vs, LAMBDA x : \E k \in DOMAIN m.vs : Equal(m.ty, m.vs[k], x.v)) IN
                      [k \in 1..Len(vs) |-> [o |-> OutVal(vs[k]), to |-> i]]
         IN FlatMap(of, cs)
    [] m.m = "text" -> IF Tok(L, i).k = "T" THEN << [o |-> OutText(Tok(L, i).cp), to |-> i] >> ELSE <<>>
    [] m.m = "seq"  ->
         LET body == IF Len(m.xs) = 2 THEN GoSeq2(m.xs[1], m.xs[2], d, i, L)
                     ELSE LET step(mab) == LET j == Beyond(L, d, mab.to) IN
                                IF j = -1 THEN <<>>
                                ELSE LET mc == Go(m.xs[3], d, j, L) IN
                                     [k \in 1..Len(mc) |-> [o |-> mab.o \o mc[k].o, to |-> mc[k].to]]
                          IN FlatMap(step, GoSeq2(m.xs[1], m.xs[2], d, i, L))
         IN [k \in 1..Len(body) |-> [o |-> << 3, Len(m.xs) >> \o body[k].o, to |-> body[k].to]]
    [] m.m = "all"  ->
         LET n  == Len(m.xs)
             as == Go(m.xs[1], d, i, L)
             join(xs, ys) == FlatMap(LAMBDA x : LET zs == SelectSeq(ys, LAMBDA y : y.to = x.to) IN
                                      [k \in 1..Len(zs) |-> [o |-> x.o \o zs[k].o, to |-> x.to]], xs)
             ab == join(as, Go(m.xs[2], d, i, L))
             body == IF n = 2 THEN ab ELSE join(ab, Go(m.xs[3], d, i, L))
         IN [k \in 1..Len(body) |-> [o |-> << 3, n >> \o body[k].o, to |-> body[k].to]]
    [] m.m = "or"   ->
         LET rs == [j \in 1..Len(m.xs) |-> Go(m.xs[j], d, i, L)]
             hit == {j \in 1..Len(m.xs) : rs[j] # <<>>}
         IN IF hit = {} THEN <<>>
            ELSE LET j == CHOOSE j \in hit : \A h \in hit : j <= h IN
                 [k \in 1..Len(rs[j]) |-> [o |-> << 4, j >> \o rs[j][k].o, to |-> rs[j][k].to]]

\* ---- selections -----------------------------------------------------------
\* results: Seq(<<start, end, output>>); operations without output use <<>>,
\* an absent selection is NoSel
NoSel == << -1, -1, <<>> >>
Sel(s, e) == << s, e, <<>> >>
FirstOnly(r) == IF r = <<>> THEN <<>> ELSE << r[1] >>

FindBy(L, s, e, m) ==
  LET at(i) == LET r == Go(m, "F", i, L) IN [k \in 1..Len(r) |-> << i, r[k].to, r[k].o >>]
  IN FlatMapRange(at, s, e)

FindBoth(L, s, e, m) ==
  LET at(i) == LET f == Go(m, "F", i, L)  b == Go(m, "B", i, L) IN
               [k \in 1..Len(f) |-> << i, f[k].to, f[k].o >>] \o [k \in 1..Len(b) |-> << b[k].to, i, b[k].o >>]
  IN FlatMapRange(at, s, e)

MatchF(L, s, e, m) ==
  IF e + 1 = NTok(L) THEN <<>>
  ELSE LET r == Go(m, "F", e + 1, L) IN [k \in 1..Len(r) |-> << s, r[k].to, r[k].o >>]

MatchB(L, s, e, m) ==
  IF s = 0 THEN <<>>
  ELSE LET r == Go(m, "B", s - 1, L) IN [k \in 1..Len(r) |-> << r[k].to, e, r[k].o >>]

\* sweep over the matches by start, remembering how far they cover
SplitBy(L, s, e, m) ==
  LET ms == FindBy(L, s, e, m)
      step(acc, x) == [from |-> Max({acc.from, x[2] + 1}),
                       out  |-> IF acc.from <= x[1] - 1 THEN Append(acc.out, Sel(acc.from, x[1] - 1)) ELSE acc.out]
      fin == FoldLeft(step, [from |-> s, out |-> <<>>], ms)
  IN IF fin.from <= e THEN Append(fin.out, Sel(fin.from, e)) ELSE fin.out

Clamp(s, e, a, b) ==
  LET lo == IF a > s THEN a ELSE s  hi == IF b < e THEN b ELSE e IN IF lo <= hi THEN Sel(lo, hi) ELSE NoSel

SplitWith(s, e, s2, e2) == << Clamp(s, e, s, s2 - 1), Clamp(s, e, e2 + 1, e) >>

Trim(L, s, e, m, atStart, atEnd) ==
  LET f == IF atStart THEN Go(m, "F", s, L) ELSE <<>>
      b == IF atEnd THEN Go(m, "B", e, L) ELSE <<>>
      ns == IF f = <<>> THEN s ELSE f[1].to + 1
      ne == IF b = <<>> THEN e ELSE b[1].to - 1
  IN IF ns <= ne THEN << Sel(ns, ne) >> ELSE <<>>

After(L, s, e) == IF e + 1 < NTok(L) THEN << Sel(e + 1, NTok(L) - 1) >> ELSE <<>>

\* ---- reading a line from outside -------------------------------------------
SpanText(L, s, e) == FlatMapRange(LAMBDA i : Tok(L, i).cp, s, e)

CellOut(c) == << c.s, c.e, [k \in 1..Len(c.vs) |-> << c.vs[k].id, c.vs[k].v >>] >>
StoreOut(st) == [t \in 1..Len(TypeSeq) |-> [k \in 1..Len(st[TypeSeq[t]]) |-> CellOut(st[TypeSeq[t]][k])]]

Query(L, ty) ==
  LET cs == L.st[ty] IN
  [k \in 1..Len(cs) |-> << cs[k].s, cs[k].e, SpanText(L, cs[k].s, cs[k].e),
                           [j \in 1..Len(cs[k].vs) |-> << cs[k].vs[j].id, cs[k].vs[j].v >>] >>]

Find(L, m) ==
  LET r == IF NTok(L) = 0 THEN <<>> ELSE FindBy(L, 0, NTok(L) - 1, m) IN
  [k \in 1..Len(r) |-> << L.pos[r[k][1] + 1][1], L.pos[r[k][2] + 1][2], r[k][3] >>]

ToksOut(L) == [k \in 1..NTok(L) |-> << IF L.toks[k].k = "T" THEN 1 ELSE 0, L.toks[k].tag, L.toks[k].cp >>]

\* ---- display ----------------------------------------------------------------
\* wid: display width of every token's text (<> for a value token)
TokShown(t) == IF t.k = "T" THEN t.cp ELSE << 60, 62 >>
ColStart(wid, i) == FoldLeft(+, 0, SubSeq(wid, 1, i)) + 2 * i
ColEnd(wid, i) == ColStart(wid, i) + wid[i + 1]

Rep(c, n) == IF n <= 0 THEN <<>> ELSE [k \in 1..n |-> c]
Corner1 == 9584  Dash == 9472  Corner2 == 9583   \* box drawing characters

TagName(n) == CASE n = NATN -> <<78,65,84,78>> [] n = PUNC -> <<80,85,78,67>> [] n = SYMB -> <<83,89,77,66>>
                [] n = SPACE -> <<83,80,65,67,69>> [] n = WORD -> <<87,79,82,68>>
KwName(n) == CASE n = 1 -> <<67,111,110,100,105,116,105,111,110,83,116,97,114,116>> [] n = 2 -> <<84,104,101,110>> [] n = 3 -> <<65,110,100>>
ClauseName(n) == CASE n = 1 -> <<76,101,97,100,105,110,103,69,102,102,101,99,116>> [] n = 2 -> <<84,114,97,105,108,105,110,103,69,102,102,101,99,116>>
                   [] n = 3 -> <<67,111,110,100,105,116,105,111,110>> [] n = 4 -> <<73,110,100,101,112,101,110,100,101,110,116>>
TypeLetter == [A |-> 65, B |-> 66, C |-> 67]

\* Debug text: enumerations by name; harness types as A<v>#<id>, e.g. "A1#5", except that C has an empty one and one
\* with spaces at the ends, quotes, line breaks, wide and combining characters, and a long one
\* (characters: ASCII only)
CharLabel(c) == << 39 >> \o (CASE c = 39 -> << 92, 39 >> [] c = 92 -> << 92, 92 >> [] c = 10 -> << 92, 110 >> [] c = 9 -> << 92, 116 >> [] OTHER -> << c >>) \o << 39 >>
Label(ty, x) ==
  CASE ty = "tag" -> TagName(x.v[1])
    [] ty = "char" -> CharLabel(x.v[1])
    [] ty = "amount" -> << 65, 109, 111, 117, 110, 116, 40 >> \o x.v \o << 41 >>
    [] ty = "kw" -> KwName(x.v[1])
    [] ty = "clause" -> ClauseName(x.v[1])
    [] ty = "Z" -> << 90 >>
    [] ty = "C" /\ x.v[1] = 2 -> <<>>
    [] ty = "C" /\ x.v[1] = 3 -> << 32, 34, 25991, 769, 34, 10, 32 >> \o NatCps(x.id) \o << 9, 32 >>
    [] ty = "C" /\ x.v[1] = 4 -> Rep(120, 300 - Len(NatCps(x.id))) \o NatCps(x.id)
    [] OTHER -> << TypeLetter[ty] >> \o NatCps(x.v[1]) \o << 35 >> \o NatCps(x.id)

DrawLine(wid, c, label) ==
  LET a == ColStart(wid, c.s)  b == ColEnd(wid, c.e) IN
  Rep(32, a) \o << Corner1 >> \o Rep(Dash, b - a - 2) \o (IF b - a > 1 THEN << Corner2 >> ELSE <<>>) \o label

\* the lines of a display
DisplayLines(L, wid, tys) ==
  LET n == NTok(L)
      opening == FlattenSeq([k \in 1..n |-> (IF k = 1 THEN <<>> ELSE << 32, 32 >>) \o TokShown(L.toks[k])])
      ofCell(ty, c) == [k \in 1..Len(c.vs) |-> DrawLine(wid, c, Label(ty, c.vs[Len(c.vs) + 1 - k]))]
      ofType(ty) == FlatMap(LAMBDA c : ofCell(ty, c), L.st[ty])
  IN << opening >> \o FlatMap(ofType, tys)

Display(L, wid, tys) ==
  LET lines == DisplayLines(L, wid, tys) IN
  FlattenSeq([k \in 1..Len(lines) |-> IF k = 1 THEN lines[1] ELSE << 10 >> \o lines[k]])
=============================================================================
