---------------------------- MODULE LNResolvers ----------------------------
(***************************************************************************)
(* The built-in resolvers: what each assigns to a (frozen) line.  Every     *)
(* operator returns the assignments Seq([s, e, v, id]) of one run.          *)
(***************************************************************************)
EXTENDS LNCore

Asg(s, e, v, id) == [s |-> s, e |-> e, v |-> v, id |-> id]
TokIdx(L) == [k \in 1..NTok(L) |-> k - 1]

\* single-token text tagged NATN (the tag may also come from an input attribute)
HasVal(L, ty, i, v) == \E k \in DOMAIN L.st[ty] :
                          LET c == L.st[ty][k] IN c.s = i /\ c.e = i /\ \E j \in DOMAIN c.vs : c.vs[j].v = v
IsNum(L, i) == i < NTok(L) /\ Tok(L, i).k = "T" /\ HasVal(L, "tag", i, << NATN >>)
HasCharOf(L, i, cs) == i < NTok(L) /\ \E k \in DOMAIN cs : HasVal(L, "char", i, << cs[k] >>)

\* ---- amounts ----------------------------------------------------------------
\* furthest token reached from number token i by (delimiter, number) pairs
RECURSIVE PairsFrom(_, _, _)
PairsFrom(L, i, del) ==
  IF HasCharOf(L, i + 1, del) /\ IsNum(L, i + 2) THEN PairsFrom(L, i + 2, del) ELSE i

NumDigits(L, s, e) == FlatMapRange(LAMBDA i : IF (i - s) % 2 = 0 THEN Tok(L, i).cp ELSE <<>>, s, e)

\* the amount starting at number token i:
\*   int    digits of the integral part, frac digits of the fraction
\*   e      last token of the amount, next  where reading resumes
AmountAt(L, i, del, dec) ==
  LET a == PairsFrom(L, i, del)
      ip == NumDigits(L, i, a)
  IN IF HasCharOf(L, a + 1, del) THEN [int |-> ip, frac |-> <<>>, e |-> a, next |-> a + 2]
     ELSE IF ~HasCharOf(L, a + 1, << dec >>) THEN [int |-> ip, frac |-> <<>>, e |-> a, next |-> a + 1]
     ELSE IF ~IsNum(L, a + 2) THEN [int |-> ip, frac |-> <<>>, e |-> a, next |-> a + 2]
     ELSE LET b == PairsFrom(L, a + 2, del) IN
          [int |-> ip, frac |-> NumDigits(L, a + 2, b), e |-> b, next |-> b + 1]

RECURSIVE StripZeros(_)
StripZeros(ds) == IF Len(ds) > 1 /\ ds[1] = 48 THEN StripZeros(Tail(ds)) ELSE ds

\* Decimal holds integers up to 2^96 - 1 and up to 28 significant decimals
MaxDecimal == << 55,57,50,50,56,49,54,50,53,49,52,50,54,52,51,51,55,53,57,51,53,52,51,57,53,48,51,51,53 >>
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLeq(Tail(a), Tail(b))
Fits(ds) == Len(ds) < 29 \/ (Len(ds) = 29 /\ LexLeq(ds, MaxDecimal))

AnyValue == << -1 >>    \* value left open: rounding of over-long fractions is the Decimal type's business
AmountValue(x) ==
  LET i == StripZeros(x.int) IN
  IF x.frac = <<>> THEN i
  ELSE IF Len(i) + Len(x.frac) <= 28 THEN i \o << 46 >> \o x.frac ELSE AnyValue

DigitsOnly(x) == (\A k \in DOMAIN x.int : IsAsciiDigit(x.int[k])) /\ (\A k \in DOMAIN x.frac : IsAsciiDigit(x.frac[k]))
\* odd: at these tokens, what starts with a token that others than the tokenizer tagged NATN, and is not made of digits, is
\* an amount after all (the property says nothing about it)
RECURSIVE AmountsFrom(_, _, _, _, _)
AmountsFrom(L, i, del, dec, odd) ==
  IF i >= NTok(L) THEN <<>>
  ELSE IF ~IsNum(L, i) THEN AmountsFrom(L, i + 1, del, dec, odd)
  ELSE LET x == AmountAt(L, i, del, dec)
           rest == AmountsFrom(L, x.next, del, dec, odd)
       IN IF ~DigitsOnly(x) THEN (IF i \in odd THEN << Asg(i, x.e, AnyValue, 0) >> ELSE <<>>) \o rest
          ELSE IF Fits(StripZeros(x.int)) THEN << Asg(i, x.e, AmountValue(x), 0) >> \o rest ELSE rest

AmountCfg(r) ==
  CASE r.cfg = "en"  -> [del |-> << 44, 39 >>, dec |-> 46]
    [] r.cfg = "fr"  -> [del |-> << 32, 46, 39 >>, dec |-> 44]
    [] r.cfg = "new" -> [del |-> r.del, dec |-> r.dec]

Amounts(L, r) == LET c == AmountCfg(r) IN AmountsFrom(L, 0, c.del, c.dec, IF "odd" \in DOMAIN r THEN r.odd ELSE {})
\* where such amounts start
OddAmounts(L, r) == LET c == AmountCfg(r) IN {i \in 0..NTok(L)-1 : IsNum(L, i) /\ ~DigitsOnly(AmountAt(L, i, c.del, c.dec))}

\* ---- text match ----------------------------------------------------------------
\* lo(i): lower-cased text of token i
\* tab: Seq([key, lkey, vs: Seq([v, id])]), lkey the lower-cased key
TextMatch(L, lo(_), r) ==
  LET hits(i) == SelectSeq(r.tab, LAMBDA t : IF r.ci = 1 THEN t.lkey = lo(i) ELSE t.key = Tok(L, i).cp)
      of(i) == IF Tok(L, i).k # "T" THEN <<>>
               ELSE FlatMap(LAMBDA t : [k \in 1..Len(t.vs) |-> Asg(i, i, t.vs[k].v, t.vs[k].id)], hits(i))
  IN FlatMap(of, TokIdx(L))

\* ---- clause keywords -------------------------------------------------------------
ConditionStart == 1  Then == 2  And == 3
InList(x, l) == \E k \in DOMAIN l : l[k] = x
Keywords(L, lo(_), r) ==
  LET of(i) == IF Tok(L, i).k # "T" THEN <<>>
               ELSE IF InList(lo(i), r.c) THEN << Asg(i, i, << ConditionStart >>, 0) >>
               ELSE IF InList(lo(i), r.t) THEN << Asg(i, i, << Then >>, 0) >>
               ELSE IF InList(lo(i), r.a) THEN << Asg(i, i, << And >>, 0) >>
               ELSE <<>>
  IN FlatMap(of, TokIdx(L))

\* ---- clauses -----------------------------------------------------------------------
LeadingEffect == 1  TrailingEffect == 2  Condition == 3  Independent == 4
SeparatorMatcher == [m |-> "or", xs |-> << [m |-> "attr", ty |-> "kw"], [m |-> "eq", ty |-> "tag", v |-> << PUNC >>] >>]

\* keyword directly before token i (0 when there is none)
KeywordBefore(L, i) ==
  IF i = 0 THEN 0
  ELSE LET cs == SelectSeq(L.st["kw"], LAMBDA c : c.e = i - 1) IN IF cs = <<>> THEN 0 ELSE cs[1].vs[1].v[1]

Clauses(L) ==
  LET pieces == IF NTok(L) = 0 THEN <<>> ELSE SplitBy(L, 0, NTok(L) - 1, SeparatorMatcher)
      n == Len(pieces)
      kept(p) == Trim(L, p[1], p[2], [m |-> "ws"], TRUE, TRUE)
      kwOf(p) == KeywordBefore(L, p[1])
      isCond(k) == kept(pieces[k]) # <<>> /\ kwOf(pieces[k]) = ConditionStart
      role(k) ==
        LET kw == kwOf(pieces[k]) IN
        IF n = 1 THEN (IF kw = ConditionStart THEN Condition ELSE Independent)
        ELSE IF kw = ConditionStart THEN Condition
        ELSE IF kw = Then THEN TrailingEffect
        ELSE IF \E j \in 1..(k-1) : isCond(j) THEN TrailingEffect ELSE LeadingEffect
      of(k) == LET t == kept(pieces[k]) IN IF t = <<>> THEN <<>> ELSE << Asg(t[1][1], t[1][2], << role(k) >>, 0) >>
  IN FlatMap(of, [k \in 1..n |-> k])

\* ---- part of speech ------------------------------------------------------------------
\* dict(i): Seq of tag numbers the dictionary lists for the lower-cased text of
\* token i, << -1 >> when it is unknown there
Noun == 6
PosTags(L, dict(_), once) ==
  LET wordHits(i) == \* once, or once per WORD tag on the single token
        LET all == FlatMap(LAMBDA c : SelectSeq(c.vs, LAMBDA x : x.v = << WORD >>),
                SelectSeq(L.st["tag"], LAMBDA c : c.s = i /\ c.e = i))
        IN IF once THEN FirstOnly(all) ELSE all
      tags(i) == IF dict(i) = << -1 >> THEN << Noun >> ELSE dict(i)
      of(i) == IF Tok(L, i).k # "T" THEN <<>>
               ELSE FlatMap(LAMBDA h : [k \in 1..Len(tags(i)) |-> Asg(i, i, << tags(i)[k] >>, 0)], wordHits(i))
  IN FlatMap(of, TokIdx(L))
=============================================================================
