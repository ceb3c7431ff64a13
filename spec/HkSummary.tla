----------------------------- MODULE HkSummary -----------------------------
(***************************************************************************)
(* Summaries of transformed functions.  A case is one program: it is run    *)
(* at init, then at apply with what init returned, and the second run is    *)
(* observed: one row for every module method called, in the order in which  *)
(* they start, filled when the method returns.  Methods that fail leave no  *)
(* row.  Observing changes nothing: the machine is the one of HkCalls.      *)
(***************************************************************************)
EXTENDS HkCalls, Json

CONSTANT CaseFile
Cases == JsonDeserialize(CaseFile)

VARIABLES cid, ph, m, res, rows, open, who
vars == << cid, ph, m, res, rows, open, who >>

Case == Cases[cid]
Call(kind) == [prog |-> 1, kind |-> kind, var |-> "tws", nr |-> FALSE, prof |-> Case.prof, rng |-> "s42",
               arg |-> Case.arg, pref |-> IF kind = "init" THEN 0 ELSE 1,
               sref |-> IF kind = "init" THEN 0 ELSE 1, pe |-> Nil, se |-> Nil]
Idle == Machine(Nil)

Init == /\ cid \in 1..Len(Cases)
        /\ ph = "init" /\ res = Nil /\ rows = Nil /\ open = Nil /\ who = Nil
        /\ m = BeginM(Call("init"), Cases[cid].prog, Nil)

(* What a module owns now. *)
Owned(mm, obj) ==
  [name |-> mm.objs[obj].name, new |-> IF obj \in DOMAIN who THEN who[obj] ELSE 0,
   params |-> {<< x[1] \o "/" \o x[2], x[1] = mm.objs[obj].name, x[2], F(mm).params[x].n >> :
                x \in {y \in DOMAIN F(mm).params : InDict(mm, obj, y[1])}},
   state |-> {<< x[1] \o "/" \o x[2], x[1] = mm.objs[obj].name, x[2], F(mm).state[x].c.n >> :
                x \in {y \in DOMAIN F(mm).state : InDict(mm, obj, y[1])}}]
(* The running methods, innermost first. *)
CallStack(mm) ==
  LET s == F(mm).mstk
  IN  [i \in 1..Len(s) |-> LET e == s[Len(s) + 1 - i] IN [d |-> Owned(mm, e.obj), meth |-> e.meth]]

Starts(n) ==     \* the step to n enters a method
  /\ ~Failed(m) /\ m.prog[m.pc].k = "call" /\ Len(n.ctl) > Len(m.ctl)
  /\ m.prog[m.pc].meth # "tr"
Leaves(n) == Len(open) > 0 /\ Len(n.ctl) < Top(open).depth

Step ==
  /\ ph \in {"init", "apply"} /\ ~Halt(m)
  /\ LET n == Exec(m)
     IN  /\ m' = n
         /\ who' = IF ~Failed(m) /\ m.prog[m.pc].k = "new" /\ Len(n.objs) > Len(m.objs)
                     THEN ((Len(m.objs) + 1) :> m.pc) @@ who ELSE who
         /\ IF Starts(n) THEN
              /\ rows' = Append(rows, [done |-> FALSE, at |-> m.pc, stack |-> Nil])
              /\ open' = Append(open, [row |-> Len(rows) + 1, depth |-> Len(n.ctl)])
            ELSE IF Leaves(n) THEN
              /\ rows' = IF Failed(m) THEN rows
                         ELSE [rows EXCEPT ![Top(open).row] =
                                [done |-> TRUE, at |-> @.at, stack |-> CallStack(m)]]
              /\ open' = Pop(open)
            ELSE UNCHANGED << rows, open >>
  /\ UNCHANGED << cid, ph, res >>

Return ==
  /\ ph \in {"init", "apply"} /\ Halt(m)
  /\ res' = Append(res, ResultOf(OutcomeM(Call(ph), m, res)))
  /\ LET ok == ~m.skip /\ ~Failed(m)
     IN  IF ph = "init" /\ ok
           THEN ph' = "apply" /\ m' = BeginM(Call("apply"), Case.prog, res')
           ELSE ph' = "over" /\ m' = Idle
  /\ rows' = IF ph = "init" THEN Nil ELSE rows
  /\ open' = Nil /\ who' = IF ph = "init" THEN Nil ELSE who
  /\ UNCHANGED cid

Outs == [i \in 1..Len(res) |-> Public(res[i].out)]
Emit ==
  /\ ph = "over" /\ ph' = "done"
  /\ PrintT("OUT " \o ToJson([cid |-> cid, outs |-> Outs,
                              rows |-> SelectSeq(rows, LAMBDA r : r.done)]))
  /\ UNCHANGED << cid, m, res, rows, open, who >>

Next == Step \/ Return \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
TypeOK == MachineOK(m)
(* Open rows are the running methods, outermost first. *)
OpenAreRunning ==
  \A i \in 1..Len(open) : /\ ~rows[open[i].row].done
                          /\ i > 1 => open[i - 1].row < open[i].row /\ open[i - 1].depth < open[i].depth
                          /\ m.ctl[open[i].depth].k = "call"
(* The first entry of a call stack is the module itself, and a module's row lists
   everything its own name scopes hold. *)
RowsOwn ==
  \A i \in 1..Len(rows) : rows[i].done =>
    LET d == rows[i].stack[1].d
    IN  /\ d.name # "" /\ rows[i].stack[1].meth = Case.prog[rows[i].at].meth
        /\ \A x \in d.params : x[2] => x[1] = d.name \o "/" \o x[3]
Finished == (ph = "over" /\ Len(res) = 2 /\ res[2].ok) => Len(open) = 0
=============================================================================
