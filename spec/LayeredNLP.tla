----------------------------- MODULE LayeredNLP -----------------------------
(***************************************************************************)
(* The system as a state machine: a user prepares input tokens, creates a   *)
(* line, runs resolvers on it one after the other and looks at the result. *)
(*                                                                         *)
(* A model (MC_*.tla) bounds the choices.  Every completed history is      *)
(* printed, with everything the specification says can be observed, as one *)
(* line of JSON; `lnverif replay` carries those histories out with the     *)
(* real library and compares.                                              *)
(***************************************************************************)
EXTENDS LNDecl, Json

CONSTANTS
  Tier,            \* "quick" or "deep"
  Prop,            \* the property the model is for
  Emit,            \* whether completed histories are printed
  Prepare(_),      \* inputs |-> set of the inputs one step further
  Ready(_),        \* may a line be made of these inputs ?
  SizeFns(_),      \* inputs |-> set of size functions a caller may pass
  Vias(_),         \* inputs |-> entry points: "input", "tokens" (deprecated), "string"
  RunChoices(_, _),\* line, history |-> set of runs a user may make next
  Complete(_, _),  \* line, history |-> may the user stop here ?
  OpsFor(_),       \* line |-> sequence of all the operations looked at
  Own              \* the parts of a history the property is about

VARIABLES ph,      \* "prep", "open", "refused", "seen"
          inputs, szf, via,
          line, hist, stores
vars == << ph, inputs, szf, via, line, hist, stores >>

NoLine == [toks |-> <<>>, pos |-> <<>>, st |-> EmptyStore]

Init == /\ ph = "prep" /\ inputs = <<>> /\ szf = "u8" /\ via = "input"
        /\ line = NoLine /\ hist = <<>> /\ stores = <<>>

PrepareStep ==
  /\ ph = "prep"
  /\ inputs' \in Prepare(inputs)
  /\ UNCHANGED << ph, szf, via, line, hist, stores >>

\* create_line_from_input_tokens and its variants; an empty text is refused
ViaOK(v) == v = "string" => Len(inputs) = 1 /\ inputs[1].k = "T" /\ inputs[1].at = <<>>
Create ==
  /\ ph = "prep" /\ Ready(inputs)
  /\ szf' \in SizeFns(inputs)
  /\ via' \in {v \in Vias(inputs) : ViaOK(v)}
  /\ via' = "string" => szf' = "u8"
  /\ IF Refused(inputs) THEN ph' = "refused" /\ line' = NoLine
     ELSE ph' = "open" /\ line' = TLCEval(CreateLine(inputs, szf'))
  /\ UNCHANGED << inputs, hist, stores >>

\* LLLine::run
Run ==
  /\ ph = "open"
  /\ \E r \in RunChoices(line, hist) :
       /\ line' = TLCEval(ApplyRun(line, TLCEval(ModelEnv(line)), r))
       /\ hist' = Append(hist, r)
       /\ stores' = Append(stores, [st |-> StoreOut(line'.st), calls |-> IF NTok(line) = 0 THEN 0 ELSE 1])
  /\ UNCHANGED << ph, inputs, szf, via >>

Case ==
  LET ops == OpsFor(line)
      env == TLCEval(ModelEnv(line))
      refused == ph = "refused"
  IN [own  |-> Own,
      prog |-> [input |-> inputs, szf |-> szf, via |-> via, runs |-> hist, ops |-> IF refused THEN <<>> ELSE ops],
      exp  |-> [cr  |-> [p |-> IF refused THEN 1 ELSE 0,
                         toks |-> ToksOut(line),
                         st |-> StoreOut((IF refused THEN NoLine ELSE IF hist = <<>> THEN line ELSE CreateLine(inputs, szf)).st)],
                rs  |-> stores,
                res |-> IF refused THEN <<>> ELSE [k \in 1..Len(ops) |-> Eval(line, env, ops[k])]]]

\* the user reads everything: queries, searches, selections, display
Observe ==
  /\ ph \in {"open", "refused"}
  /\ Complete(line, hist)
  /\ Emit => PrintT(ToJson(Case))
  /\ ph' = "seen"
  /\ UNCHANGED << inputs, szf, via, line, hist, stores >>

Next == PrepareStep \/ Create \/ Run \/ Observe
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The properties of the model.  Those about operations are checked for    *)
(* every operation of OpsFor in every reachable state.                     *)
(***************************************************************************)
Open == ph = "open"
Env == TLCEval(ModelEnv(line))
New == Open /\ hist = <<>>

C01_Lossless == (New => Lossless(inputs, line.toks)) /\ (ph = "refused" => Refused(inputs))
C02_Words ==
  New => /\ \A k \in DOMAIN line.toks : line.toks[k].k = "T" => TagRule(line.toks[k])
         /\ \A i \in DOMAIN inputs : inputs[i].k = "T" =>
              LET ws == Words(inputs[i].cp) IN FlattenSeq(ws) = inputs[i].cp /\ \A k \in DOMAIN ws : DigitWordCut(ws[k])
         /\ (\A i \in DOMAIN inputs : inputs[i].at = <<>>) => AutoAttrs(line)
C03_Tiled == Open => Tiled(line, inputs, szf)
C04_InputAttrs == New => InputAttrsOn(line, inputs, {"A", "B", "C", "Z"})
C05_NoDoubles == Open => NoDoubleCells(line)
C05_AppendOnly == [][Open /\ ph' = "open" => OnlyAdds(line.st, line'.st, RunType(hist'[Len(hist')]))]_vars
C05_Immutable == [][ph # "prep" => UNCHANGED << inputs, line.toks, line.pos >>]_vars
C06_PathsAgree == Open => \A ty \in Types \ {"pos", "amount"} : PathsAgree(line, ty)
HasMatcher(op) == "m" \in DOMAIN op
C07_Denotation ==
  Open => LET ops == OpsFor(line) IN \A k \in DOMAIN ops : HasMatcher(ops[k]) => GoIsDenotation(ops[k].m, line)
C09_OpsExact ==
  Open => LET ops == OpsFor(line) IN \A k \in DOMAIN ops : OpExact(line, ops[k], Eval(line, Env, ops[k]).r)
C13_Display ==
  Open => LET ops == OpsFor(line) IN \A k \in DOMAIN ops :
            ops[k].f = "disp" => DisplayExact(line, Env, ops[k].tys, Display(line, Env.wid, ops[k].tys))
C14_Runs == Open => \A r \in RunChoices(line, hist) : RunExact(line, Env, r)
C19_Commute ==
  Open => LET rs == RunChoices(line, hist) IN
          \A r1 \in rs : RunRepeats(line, Env, r1) /\ \A r2 \in rs : RunsCommute(line, Env, r1, r2)
Shift_Create == New => CreateLine(Fronts(2) \o inputs, szf) = ShiftLine(line, 2)
Shift_Run == Open => \A r \in RunChoices(line, hist) : ShiftRunLaw(line, Env, r, 2)
Shift_Ops == Open => LET ops == OpsFor(line) IN \A k \in DOMAIN ops : ShiftLaw(line, Env, ops[k], 2)
=============================================================================
