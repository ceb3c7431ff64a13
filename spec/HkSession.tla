----------------------------- MODULE HkSession -----------------------------
(***************************************************************************)
(* Sessions: sequences of init and apply calls of transformed functions in  *)
(* one thread.  A case is                                                   *)
(*   [progs: Seq(program), calls: Seq(call)]                                *)
(* with calls as in HkCalls.                                                *)
(***************************************************************************)
EXTENDS HkCalls, Json

CONSTANT CaseFile
Cases == JsonDeserialize(CaseFile)

VARIABLES cid, callix, m, res, first, step
vars == << cid, callix, m, res, first, step >>

Case == Cases[cid]
Call == Case.calls[callix]
Running == callix <= Len(Case.calls)
InCall == first = "run"
Prog(c) == Case.progs[c.prog]

(***************************************************************************)
(* Actions                                                                  *)
(***************************************************************************)
Init == /\ cid \in 1..Len(Cases)
        /\ callix = 1 /\ step = 0 /\ first = "idle"
        /\ m = Machine(Nil)
        /\ res = Nil

Begin ==
  /\ Running /\ first = "idle"
  /\ m' = BeginM(Call, Prog(Call), res)
  /\ first' = "run"
  /\ UNCHANGED << cid, callix, res >>

Is(k) == /\ Running /\ InCall /\ ~Halt(m) /\ ~Failed(m)
         /\ m.prog[m.pc].k = k
Op == m.prog[m.pc]
Do(mm) == m' = mm /\ UNCHANGED << cid, callix, res, first >>

GetParameter  == Is("getp") /\ Do(DoGetp(m, Op))
GetStateA     == Is("gets") /\ Do(DoGets(m, Op))
SetStateA     == Is("sets") /\ Do(DoSets(m, Op))
NextRngKey    == Is("key") /\ Do(DoKey(m, Op))
NextRngKeys   == Is("keys") /\ Do(DoKeys(m, Op))
MaybeRngKey   == Is("maybe") /\ Do(DoMaybe(m, Op))
ReserveRng    == Is("reserve") /\ Do(DoReserve(m, Op))
KeySequence   == \E k \in {"seqnew", "seqnext", "seqtake", "seqres"} : Is(k) /\ Do(DoSeq(m, Op))
SetValue      == Is("const") /\ Do(DoConst(m, Op))
RaiseError    == Is("raise") /\ Do(DoRaise(m, Op))
RunningInit   == Is("rinit") /\ Do(DoRunningInit(m, Op))
ParamsDict    == Is("pdict") /\ Do(DoDict(m, Op))
StateDict     == Is("sdict") /\ Do(DoDict(m, Op))
NewModule     == Is("new") /\ Do(DoNew(m, Op))
CallMethod    == Is("call") /\ Do(DoCall(m, Op))
NameScope     == Is("scope") /\ Do(DoScope(m, Op))
WithRng       == Is("withrng") /\ Do(DoWithRng(m, Op))
CustomCreator == Is("creator") /\ Do(DoCreator(m, Op))
CustomGetter  == Is("getter") /\ Do(DoGetter(m, Op))
Intercept     == Is("icp") /\ Do(DoIcp(m, Op))
UnusedContext == Is("unused") /\ Do(DoUnused(m, Op))
TryBlock      == Is("try") /\ Do(DoTry(m, Op))
IfBlock       == Is("if") /\ Do(DoIf(m, Op))
Wrapped       == Is("wrap") /\ Do(DoWrap(m, Op))
OptimizeRng   == Is("opt") /\ Do(DoOpt(m, Op))
Switch        == Is("switch") /\ Do(DoSwitch(m, Op))
Scan          == Is("scan") /\ Do(DoLoop(m, Op))
ForiLoop      == Is("fori") /\ Do(DoLoop(m, Op))
WhileLoop     == Is("while") /\ Do(DoLoop(m, Op))
InnerInit     == Is("iinit") /\ Do(DoIInit(m, Op))
InnerApply    == Is("iapply") /\ Do(DoIApply(m, Op))
Lift          == Is("lift") /\ Do(DoLift(m, Op))
BlockEnd      == Is("end") /\ Do(DoEnd(m, Op))
LeaveBlock    == /\ Running /\ InCall /\ ~Halt(m) /\ Failed(m)
                 /\ Do(Unwind(m))

Return ==
  /\ Running /\ InCall /\ Halt(m)
  /\ res' = Append(res, ResultOf(OutcomeM(Call, m, res)))
  /\ m' = Machine(Nil)
  /\ first' = "idle"
  /\ callix' = callix + 1
  /\ UNCHANGED cid

Emit ==
  /\ ~Running /\ first = "idle"
  /\ PrintT("OUT " \o ToJson([cid |-> cid, step |-> step,
                              outs |-> [i \in 1..Len(res) |-> Public(res[i].out)]]))
  /\ first' = "done"
  /\ UNCHANGED << cid, callix, res, m >>

Next ==
  /\ step' = step + 1
  /\ \/ Begin \/ Return \/ Emit \/ LeaveBlock \/ BlockEnd
     \/ GetParameter \/ GetStateA \/ SetStateA \/ NextRngKey \/ NextRngKeys \/ MaybeRngKey
     \/ ReserveRng \/ KeySequence \/ SetValue \/ RaiseError \/ RunningInit \/ ParamsDict \/ StateDict
     \/ NewModule \/ CallMethod \/ NameScope \/ WithRng \/ CustomCreator \/ CustomGetter
     \/ Intercept \/ UnusedContext \/ TryBlock \/ IfBlock \/ Wrapped \/ OptimizeRng \/ Switch
     \/ Scan \/ ForiLoop \/ WhileLoop \/ InnerInit \/ InnerApply \/ Lift

Spec == Init /\ [][Next]_vars
View == << cid, step >>

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
TypeOK == MachineOK(m)
(* C04: between calls nothing is left: no frame, context or counter. *)
IdleClean == first # "run" => m = Machine(Nil)
NothingOpenAtReturn ==
  (InCall /\ Running /\ Halt(m) /\ ~m.skip) =>
    /\ Len(m.ctl) = 0 /\ Len(m.frames) <= 1
    /\ Len(m.crp) + Len(m.crs) + Len(m.gtp) + Len(m.gts) + Len(m.icp) + Len(m.cntr) = 0
    /\ \A i \in 1..Len(m.frames) : Len(m.frames[i].mstk) = 0 /\ Len(m.frames[i].rngs) = 1
(* C02: the parameters of an apply are those given, in every state. *)
ParamsAsGiven ==
  (InCall /\ Running /\ Call.kind = "apply" /\ Len(m.frames) > 0) =>
    m.frames[1].params = PGiven(Call, res)
(* C03: a supplied state entry keeps its supplied initial value and is never lost. *)
StateKept ==
  (InCall /\ Running /\ Call.kind = "apply" /\ Len(m.frames) > 0) =>
    LET s == SGiven(Call, res)
    IN  \A x \in DOMAIN s : x \in DOMAIN m.frames[1].state /\ m.frames[1].state[x].i = s[x]
(* C01: what init returns never changes or disappears once there. *)
InitGrows ==
  [][(InCall /\ Running /\ first' = "run" /\ Call.kind = "init"
      /\ Len(m.frames) > 0 /\ Len(m'.frames) > 0) =>
       LET a == m.frames[1]  b == m'.frames[1]
       IN  \A x \in DOMAIN a.params : x \in DOMAIN b.params /\ b.params[x] = a.params[x]]_vars
InitStateGrows ==
  [][(InCall /\ Running /\ first' = "run" /\ Call.kind = "init"
      /\ Len(m.frames) > 0 /\ Len(m'.frames) > 0) =>
       LET a == m.frames[1]  b == m'.frames[1]
       IN  \A x \in DOMAIN a.state : x \in DOMAIN b.state => b.state[x].i = a.state[x].i]_vars
=============================================================================
