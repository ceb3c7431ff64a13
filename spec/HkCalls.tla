------------------------------ MODULE HkCalls ------------------------------
(***************************************************************************)
(* Calls of transformed functions: what init and apply do around a program. *)
(* A call is                                                                *)
(*   [prog, kind: "init"|"apply", var: "tws"|"t", nr: without_apply_rng,    *)
(*    prof, rng: "none"|key term|"bad", arg, pref, sref: index of the call  *)
(*    whose result is passed in (0 - nothing), pe, se: edits of it]         *)
(* Edits name entries by position: [op: "drop"|"set"|"add"|"shape", at].    *)
(* res is the sequence of results of the previous calls.                    *)
(***************************************************************************)
EXTENDS HkCore, SequencesExt

NoRes == [ok |-> FALSE, params |-> Nil, state |-> Nil]
PIn(c, res) == IF c.pref = 0 THEN Nil ELSE res[c.pref].params
SIn(c, res) == IF c.sref = 0 \/ c.var = "t" THEN Nil ELSE res[c.sref].state
RECURSIVE Edit(_, _)
Edit(p, es) ==
  IF Len(es) = 0 THEN p
  ELSE
  LET e  == es[1]
      xs == SetToSeq(DOMAIN p)
      x  == xs[(e.at % Len(xs)) + 1]
      q  == CASE e.op = "add" -> (<< e.b, e.n >> :> [t |-> Const(e.c), n |-> 2]) @@ p
              [] Len(xs) = 0 -> p
              [] e.op = "drop" -> [y \in DOMAIN p \ {x} |-> p[y]]
              [] e.op = "set" -> [p EXCEPT ![x] = [t |-> Const(e.c), n |-> p[x].n]]
              [] OTHER -> [p EXCEPT ![x] = [t |-> Const(e.c), n |-> 5 - p[x].n]]
  IN  Edit(q, Tail(es))

PGiven(c, res) == Edit(PIn(c, res), c.pe)
SGiven(c, res) == IF c.var = "t" THEN Nil ELSE Edit(SIn(c, res), c.se)
CallRng(c) == IF c.rng = "none" \/ (c.kind = "apply" /\ c.nr) THEN NoRng ELSE RngOf(c.rng)

BeginM(c, prog, res) ==
  LET f == IF c.kind = "init" THEN Frame(Nil, FALSE, Nil, CallRng(c))
           ELSE Frame(PGiven(c, res), TRUE, StateOf(SGiven(c, res)), CallRng(c))
      m0 == [Machine(prog) EXCEPT !.prof = c.prof, !.v = Const(c.arg)]
  IN  IF c.rng = "bad" /\ ~(c.kind = "apply" /\ c.nr) THEN Raise(m0, "ValueError")
      ELSE PushF(m0, f)

Halt(mm) == \/ mm.skip
            \/ Failed(mm) /\ Len(mm.ctl) = 0
            \/ ~Failed(mm) /\ mm.pc > Len(mm.prog)

Stateless(c) == c.var = "t"
OutcomeM(c, m, res) ==
  LET f == F(m)
      st == IF c.kind = "init" THEN Firsts(f.state) ELSE Currents(f.state)
      p  == PGiven(c, res)
      s  == SGiven(c, res)
      badstate == Stateless(c) /\ ~Failed(m) /\ DOMAIN f.state # {}
      odd == Stateless(c) /\ ~Failed(m) /\ \E y \in f.touched : y[1] = "s"
      err == IF m.exc # "" THEN m.exc ELSE IF badstate THEN "ValueError" ELSE ""
  IN  [skip |-> m.skip \/ (odd /\ ~badstate), err |-> err,
       v |-> IF m.skip \/ Failed(m) THEN "" ELSE m.v,
       params |-> IF err = "" /\ ~m.skip THEN Entries(f.params) ELSE {},
       state |-> IF err = "" /\ ~m.skip THEN Entries(st) ELSE {},
       pin |-> Entries(p), sin |-> Entries(s), log |-> m.log,
       keep |-> IF err = "" /\ ~m.skip THEN [ok |-> TRUE, params |-> f.params, state |-> st]
                ELSE NoRes]
ResultOf(o) == [ok |-> o.keep.ok, params |-> o.keep.params, state |-> o.keep.state, out |-> o]
Public(o) == [skip |-> o.skip, err |-> o.err, v |-> o.v, params |-> o.params,
              state |-> o.state, pin |-> o.pin, sin |-> o.sin, log |-> o.log]

(* One step of a running machine, whatever the operation. *)
Exec(m) ==
  LET o == m.prog[m.pc]
      k == o.k
  IN
  IF Failed(m) THEN Unwind(m)
  ELSE CASE k = "getp" -> DoGetp(m, o)      [] k = "gets" -> DoGets(m, o)
         [] k = "sets" -> DoSets(m, o)      [] k = "key" -> DoKey(m, o)
         [] k = "keys" -> DoKeys(m, o)      [] k = "maybe" -> DoMaybe(m, o)
         [] k = "reserve" -> DoReserve(m, o) [] k = "const" -> DoConst(m, o)
         [] k = "raise" -> DoRaise(m, o)    [] k = "rinit" -> DoRunningInit(m, o)
         [] k \in {"pdict", "sdict"} -> DoDict(m, o)
         [] k \in {"seqnew", "seqnext", "seqtake", "seqres"} -> DoSeq(m, o)
         [] k = "new" -> DoNew(m, o)        [] k = "call" -> DoCall(m, o)
         [] k = "scope" -> DoScope(m, o)    [] k = "withrng" -> DoWithRng(m, o)
         [] k = "creator" -> DoCreator(m, o) [] k = "getter" -> DoGetter(m, o)
         [] k = "icp" -> DoIcp(m, o)        [] k = "unused" -> DoUnused(m, o)
         [] k = "try" -> DoTry(m, o)        [] k = "if" -> DoIf(m, o)
         [] k = "wrap" -> DoWrap(m, o)      [] k = "opt" -> DoOpt(m, o)
         [] k = "switch" -> DoSwitch(m, o)  [] k \in {"scan", "fori", "while"} -> DoLoop(m, o)
         [] k = "iinit" -> DoIInit(m, o)    [] k = "iapply" -> DoIApply(m, o)
         [] k = "lift" -> DoLift(m, o)      [] k = "end" -> DoEnd(m, o)
=============================================================================
