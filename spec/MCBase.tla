------------------------------- MODULE MCBase -------------------------------
(* Building blocks of the models. *)
EXTENDS LayeredNLP

T(cp) == [k |-> "T", cp |-> cp, at |-> <<>>]
V(sz) == [k |-> "V", sz |-> sz, at |-> <<>>, anc |-> 1]
Attr(ty, v, id) == [ty |-> ty, v |-> << v >>, id |-> id]
With(inp, at) == [inp EXCEPT !.at = at]

Deep == Tier = "deep"
ByTier(q, d) == IF Deep THEN d ELSE q

\* texts
a_ == << 97 >>  b_ == << 98 >>  x_ == << 120 >>  sp == << 32 >>  one_ == << 49 >>  comma == << 44 >>  dot == << 46 >>

\* sequences of at most n elements of S one step further
Grow(seq, S, n) == IF Len(seq) < n THEN {Append(seq, x) : x \in S} ELSE {}

Sels(n) == FlattenSeq([s \in 1..n |-> [e \in 1..(n - s + 1) |-> << s - 1, s + e - 2 >>]])
SpanSet(n) == {<< s, e >> \in (0..(n-1)) \X (0..(n-1)) : s <= e}
Singles(n) == [i \in 1..n |-> << i - 1, i - 1 >>]

\* matchers
MAttr(ty) == [m |-> "attr", ty |-> ty]
MEq(ty, v) == [m |-> "eq", ty |-> ty, v |-> << v >>]
MHas(ty, vs) == [m |-> "has", ty |-> ty, vs |-> vs]
MText == [m |-> "text"]
MWs == [m |-> "ws"]
MSeq(xs) == [m |-> "seq", xs |-> xs]
MAll(xs) == [m |-> "all", xs |-> xs]
MOr(xs) == [m |-> "or", xs |-> xs]

\* operations
OpM(f, s, m) == [f |-> f, s |-> s[1], e |-> s[2], m |-> m]
Op(f, s) == [f |-> f, s |-> s[1], e |-> s[2]]
Op2(f, s, s2) == [f |-> f, s |-> s[1], e |-> s[2], s2 |-> s2[1], e2 |-> s2[2]]
FindOp(m) == [f |-> "find", m |-> m]
QueryOp(ty) == [f |-> "query", ty |-> ty]
DispOp(tys) == [f |-> "disp", tys |-> tys]
Cross(f(_, _), xs, ys) == FlatMap(LAMBDA x : [k \in 1..Len(ys) |-> f(x, ys[k])], xs)

\* runs
Assign(ty, as) == [r |-> "assign", ty |-> ty, as |-> as]
\* at most one or two assignments, with ids that tell history and place
NewId(h, k) == 10 * (Len(h) + 1) + k
Lists(n, h, vals, two) ==
  LET one == {<< Asg(s[1], s[2], << v >>, NewId(h, 1)) >> : s \in SpanSet(n), v \in vals} IN
  IF ~two THEN one
  ELSE one \cup {<< Asg(s[1], s[2], << v >>, NewId(h, 1)), Asg(u[1], u[2], << w >>, NewId(h, 2)) >>
                  : s \in SpanSet(n), u \in SpanSet(n), v \in vals, w \in vals}

NoRuns(L, h) == {}
NoOps(L) == <<>>
Always2(L, h) == TRUE
OneSize(i) == {"u8"}
Plain(i) == {"input"}
=============================================================================
