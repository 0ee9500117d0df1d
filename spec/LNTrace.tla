------------------------------- MODULE LNTrace -------------------------------
(***************************************************************************)
(* Trace validation: is what the real code did a behaviour of the           *)
(* specification?  A trace holds the histories of one or more lines; an     *)
(* event is the creation of a line, a run of a resolver, or an operation,   *)
(* with everything observed afterwards.  Each event is a step that is       *)
(* enabled only when the specification allows what was observed; a trace    *)
(* that cannot be finished deadlocks, which TLC reports.                    *)
(*                                                                         *)
(* Prop selects which kind of event is judged.  Steps that are another      *)
(* property's business adopt what was observed, so that a defect elsewhere  *)
(* is not blamed on this property.                                          *)
(***************************************************************************)
EXTENDS LNOps, LNDecl, Json

CONSTANTS TraceFile, Prop

Traces == ndJsonDeserialize(TraceFile)

VARIABLES tid,   \* which trace
          ln,    \* which line of it
          l,     \* next event: 0 creation, then runs, then operations
          line,  \* the line's state
          memo   \* what was seen before in this trace (for Prop = C19)
vars == << tid, ln, l, line, memo >>

Lines == Traces[tid].lines
Tr == Lines[ln]

\* ---- reading observations -------------------------------------------------
ObsToks(o) == TLCEval([k \in 1..Len(o) |-> [k |-> IF o[k][1] = 1 THEN "T" ELSE "V", cp |-> o[k][3], tag |-> o[k][2]]])
ObsCells(cs) == [k \in 1..Len(cs) |-> [s |-> cs[k][1], e |-> cs[k][2],
                   vs |-> [j \in 1..Len(cs[k][3]) |-> Val(cs[k][3][j][2], cs[k][3][j][1])]]]
TypeNo(t) == CHOOSE k \in DOMAIN TypeSeq : TypeSeq[k] = t
ObsStore(o) == TLCEval([t \in Types |-> ObsCells(o[TypeNo(t)])])

CharEnv(e) == [al |-> {e.al[k] : k \in DOMAIN e.al}, ws |-> {e.ws[k] : k \in DOMAIN e.ws}]

\* tokens the specification expects of an input
ExpTokens(inp, lens, ce) ==
  IF inp.k = "V" THEN << ValueTok >>
  ELSE TokensOfWords(IF KnownText(inp.cp) THEN Words(inp.cp) ELSE WordsByLen(inp.cp, lens), ce)
ExpToksPer(tr) == LET ce == CharEnv(tr.env) IN [i \in 1..Len(tr.input) |-> ExpTokens(tr.input[i], tr.env.lens[i], ce)]

\* lower-casing: known to the specification where it is simple
EnvOf(tr) ==
  [lo   |-> [k \in 1..Len(tr.cr.toks) |->
               LET cp == tr.cr.toks[k][3] IN
               IF \A j \in DOMAIN cp : LowerKnown(cp[j]) THEN Lower(cp) ELSE tr.env.lo[k]],
   dict |-> tr.env.dict,
   wid  |-> tr.env.wid]

\* ---- creation ----------------------------------------------------------------
NoLine == [toks |-> <<>>, pos |-> <<>>, st |-> EmptyStore]

\* the observed line, when its tokens can be attributed to the inputs
Adopted(tr) ==
  LET toks == ObsToks(tr.cr.toks)
      per == Cut(tr.input, toks)
  IN [toks |-> toks, pos |-> Tiles(TokSizes(tr.input, per, tr.szf)), st |-> ObsStore(tr.cr.st)]

InputTypes(tr) == UNION {{tr.input[i].at[k].ty : k \in DOMAIN tr.input[i].at} : i \in DOMAIN tr.input}

CreationAllowed(tr) ==
  LET toks == ObsToks(tr.cr.toks) IN
  CASE Prop = "C01" -> /\ (tr.cr.p = 1) = Refused(tr.input)
                       /\ tr.cr.p = 0 => Lossless(tr.input, toks)
    [] Prop = "C02" -> tr.cr.p = 0 =>
                         LET exp == FlattenSeq(ExpToksPer(tr))
                             st == ObsStore(tr.cr.st)
                         IN /\ toks = exp
                            /\ st["tag"] = AutoStore(exp)["tag"]
                            /\ st["char"] = AutoStore(exp)["char"]
    [] Prop = "C04" -> /\ tr.cr.p # 2
                       /\ (tr.cr.p = 0 /\ Lossless(tr.input, toks)) =>
                         LET exp == WithInputAttrs(AutoStore(toks), tr.input, Cut(tr.input, toks))
                             st == ObsStore(tr.cr.st)
                         IN \A t \in (Types \ {"tag", "char"}) \cup InputTypes(tr) : st[t] = exp[t]
    [] Prop = "C06" -> tr.cr.p # 2
    [] Prop = "C19" -> \A k \in DOMAIN memo : (memo[k].kind = "create" /\ memo[k].key = tr.input) => memo[k].val = tr.cr
    [] OTHER -> TRUE

\* can the rest of the line be judged ?
SpansInLine(st, n) == \A t \in Types : \A k \in DOMAIN st[t] : 0 <= st[t][k].s /\ st[t][k].s <= st[t][k].e /\ st[t][k].e < n
Usable(tr) == /\ tr.cr.p = 0
              /\ Lossless(tr.input, ObsToks(tr.cr.toks))
              /\ SpansInLine(ObsStore(tr.cr.st), Len(tr.cr.toks))

NextLine == ln' = ln + 1 /\ l' = 0 /\ line' = NoLine
Seen(kind, key, val) == << [kind |-> kind, key |-> key, val |-> val] >>

TraceCreate ==
  /\ ln <= Len(Lines) /\ l = 0
  /\ CreationAllowed(Tr)
  \* whatever the code the library calls back does with other lines gives what it always gives
  /\ (Prop \in {"C05", "C19"} => Tr.nd = 0)
  /\ memo' = IF Prop = "C19" THEN memo \o Seen("create", Tr.input, Tr.cr) ELSE memo
  /\ UNCHANGED tid
  /\ IF ~Usable(Tr) THEN NextLine
     ELSE ln' = ln /\ l' = 1 /\ line' = Adopted(Tr)

\* ---- runs -------------------------------------------------------------------------
NRuns == Len(Tr.rs)

\* equal stores, except that an amount whose value the specification leaves open may be anything
AmountCellsOK(exp, obs) ==
  /\ Len(exp) = Len(obs)
  /\ \A k \in DOMAIN exp : /\ exp[k].s = obs[k].s /\ exp[k].e = obs[k].e /\ Len(exp[k].vs) = Len(obs[k].vs)
                           /\ \A j \in DOMAIN exp[k].vs : exp[k].vs[j].v = AnyValue \/ exp[k].vs[j] = obs[k].vs[j]
StoreOK(exp, obs) == /\ \A t \in Types \ {"amount"} : exp[t] = obs[t]
                     /\ AmountCellsOK(exp["amount"], obs["amount"])

\* a hashed lookup table has no order: entries whose keys meet after lower-casing may be honoured in any order
Meets(tab) == \E i, j \in DOMAIN tab : i # j /\ tab[i].lkey = tab[j].lkey
Orders(r) ==
  IF r.r = "text" /\ r.ci = 1 /\ r.arr = 0 /\ Meets(r.tab)
  THEN {[r EXCEPT !.tab = [k \in DOMAIN r.tab |-> r.tab[p[k]]]] : p \in Permutations(DOMAIN r.tab)}
  \* a token the user tagged WORD once more may get the dictionary's tags once or once per WORD
  ELSE IF r.r = "pos" THEN {r, [r |-> "pos", once |-> 1]}
  ELSE IF r.r = "amount"
  THEN LET odd == OddAmounts(line, r) IN
       IF odd = {} THEN {r}
       ELSE {[f \in DOMAIN r \cup {"odd"} |-> IF f = "odd" THEN x ELSE r[f]] : x \in SUBSET odd}
  ELSE {r}

UserRun(r) == r.r \in {"assign", "full", "echo"}

OwnRun(r) == CASE Prop = "C14" -> r.r = "text"
               [] Prop = "C15" -> r.r = "amount"
               [] Prop = "C16" -> r.r = "kw"
               [] Prop = "C17" -> r.r = "clause"
               [] Prop = "C18" -> r.r = "pos"
               [] OTHER -> FALSE

\* what a run may depend on: everything there is; what its resolver reads
FullKey(r) == << r, line.toks, line.st >>
PartKey(r) == << r, line.toks, [t \in Reads(r) |-> line.st[t]] >>

\* Part-of-speech tags in reported order: cells <<s, e, tags>>.  The tags of one run have no specified order, but always
\* the same one (C19).
PrevOrd == IF l = 1 THEN <<>> ELSE Tr.rs[l-1].ord
OrdAt(ord, c) == LET at == {k \in DOMAIN ord : ord[k][1] = c[1] /\ ord[k][2] = c[2]} IN IF at = {} THEN <<>> ELSE ord[CHOOSE k \in at : TRUE][3]
OrdExtends(a, b) == \A k \in DOMAIN a : k \in DOMAIN b /\ b[k][1] = a[k][1] /\ b[k][2] = a[k][2] /\ IsPrefix(a[k][3], b[k][3])
OrdAdded(a, b) == {x \in {<< b[k][1], b[k][2], SubSeq(b[k][3], Len(OrdAt(a, b[k])) + 1, Len(b[k][3])) >> : k \in DOMAIN b} : x[3] # <<>>}
FullSeen(o) == << ObsStore(o.st), o.ord >>
PartSeen(r, o) == << Added(line.st, ObsStore(o.st), RunType(r)), OrdAdded(PrevOrd, o.ord) >>

RunAllowed(r, o, env) ==
  LET obs == ObsStore(o.st) IN
  IF OwnRun(r) /\ r.r = "amount" /\ Cardinality(OddAmounts(line, r)) > 8 THEN o.p = 0
  ELSE IF OwnRun(r) THEN o.p = 0 /\ \E r2 \in Orders(r) : StoreOK(RunStore(line, env, r2), obs)
  ELSE IF Prop = "C05" /\ UserRun(r)
  THEN o.skip > 0 \/ ( /\ o.p = 0 /\ o.same = 1
                       /\ o.calls = (IF NTok(line) = 0 THEN 0 ELSE 1)
                       /\ obs = RunStore(line, env, r) )
  ELSE IF Prop = "C05"
  THEN o.p # 2 /\ (o.p = 0 => o.same = 1 /\ OnlyAdds(line.st, obs, RunType(r)))
  ELSE IF Prop = "C06" THEN o.p # 2
  ELSE IF Prop = "C19" /\ o.p = 0
  THEN /\ OnlyAdds(line.st, obs, RunType(r))
       /\ OrdExtends(PrevOrd, o.ord)
       /\ \A k \in DOMAIN memo :
            /\ (memo[k].kind = "full" /\ memo[k].key = FullKey(r)) => memo[k].val = FullSeen(o)
            /\ (memo[k].kind = "part" /\ memo[k].key = PartKey(r)) => memo[k].val = PartSeen(r, o)
  ELSE TRUE

TraceRun ==
  /\ ln <= Len(Lines) /\ l \in 1..NRuns
  /\ LET r == Tr.runs[l]  o == Tr.rs[l]  env == EnvOf(Tr) IN
     /\ RunAllowed(r, o, env)
     /\ UNCHANGED tid
     /\ memo' = IF Prop = "C19" /\ o.p = 0
                THEN memo \o Seen("full", FullKey(r), FullSeen(o)) \o Seen("part", PartKey(r), PartSeen(r, o))
                ELSE memo
     /\ IF o.p # 0 \/ (Prop \in {"C06", "C13"} /\ o.skip > 0) \/ ~SpansInLine(ObsStore(o.st), NTok(line)) THEN NextLine
        ELSE /\ ln' = ln /\ l' = l + 1
             /\ line' = IF Prop \in {"C06", "C13"} /\ UserRun(r) THEN ApplyRun(line, env, r) ELSE [line EXCEPT !.st = ObsStore(o.st)]

\* ---- operations ------------------------------------------------------------------------
\* operations marked "wf" are other properties' business, except that what they return must be tokens of the line
WellFormed(r) == \A k \in DOMAIN r : r[k][1] = -1 \/ (0 <= r[k][1] /\ r[k][1] <= r[k][2] /\ r[k][2] < NTok(line))
OpAllowed(op, o, env) ==
  \/ o.p = 3
  \/ IF "wf" \in DOMAIN op THEN o.p \in {1, 2} \/ (o.p = 0 /\ WellFormed(o.r)) ELSE o = Eval(line, env, op)

TraceOp ==
  /\ ln <= Len(Lines) /\ l > NRuns /\ l <= NRuns + Len(Tr.res)
  /\ LET k == l - NRuns IN OpAllowed(Tr.ops[k], Tr.res[k], EnvOf(Tr))
  /\ l' = l + 1 /\ UNCHANGED << tid, ln, line, memo >>

TraceNextLine ==
  /\ ln <= Len(Lines) /\ l > 0 /\ l > NRuns + Len(Tr.res)
  /\ NextLine /\ UNCHANGED << tid, memo >>

TraceDone == ln > Len(Lines) /\ UNCHANGED vars

TraceInit == /\ tid \in 1..Len(Traces) /\ ln = 1 /\ l = 0 /\ line = NoLine /\ memo = <<>>
TraceNext == TraceCreate \/ TraceRun \/ TraceOp \/ TraceNextLine \/ TraceDone
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
