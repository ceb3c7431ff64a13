----------------------------- MODULE HkThreads -----------------------------
(***************************************************************************)
(* Threads, each running a session of calls (HkCalls) of the same library.  *)
(* A case is [threads: Seq(session)], a session [progs, calls] as in        *)
(* HkSession.  The scheduler may switch threads between any two steps, at   *)
(* most Preempt times while the running thread could go on.                 *)
(***************************************************************************)
EXTENDS HkCalls, Json

CONSTANTS CaseFile,  \* the cases
          Preempt,   \* preemptions allowed
          Emitting   \* print every finished behaviour
Cases == JsonDeserialize(CaseFile)

VARIABLES cid, ths, cur, pre, sched
vars == << cid, ths, cur, pre, sched >>

Case == Cases[cid]
Thread == 1..Len(Case.threads)
Idle == [ph |-> "idle", cx |-> 1, m |-> Machine(Nil), res |-> Nil]
CallOf(t, th) == Case.threads[t].calls[th.cx]
Done(t, th) == th.cx > Len(Case.threads[t].calls)

(* One step of thread t alone: it reads and writes nothing but its own record. *)
StepOf(t, th) ==
  LET c == CallOf(t, th)
      ses == Case.threads[t]
  IN  IF th.ph = "idle" THEN [th EXCEPT !.ph = "run", !.m = BeginM(c, ses.progs[c.prog], th.res)]
      ELSE IF Halt(th.m) THEN
        [ph |-> "idle", cx |-> th.cx + 1, m |-> Machine(Nil),
         res |-> Append(th.res, ResultOf(OutcomeM(c, th.m, th.res)))]
      ELSE [th EXCEPT !.m = Exec(th.m)]

Init == /\ cid \in 1..Len(Cases)
        /\ ths = [t \in Thread |-> Idle]
        /\ cur = 0 /\ pre = 0 /\ sched = Nil

Step(t) ==
  /\ ~Done(t, ths[t])
  /\ LET forced == cur = 0 \/ cur = t \/ Done(cur, ths[cur])
         cost == IF forced THEN 0 ELSE 1
     IN  /\ pre + cost <= Preempt
         /\ pre' = pre + cost
  /\ ths' = [ths EXCEPT ![t] = StepOf(t, ths[t])]
  /\ cur' = t
  /\ sched' = Append(sched, t)
  /\ UNCHANGED cid

Finished == \A t \in Thread : Done(t, ths[t])
Outs(th) == [i \in 1..Len(th.res) |-> Public(th.res[i].out)]
Emit == /\ Finished /\ cur # -1
        /\ IF Emitting = "all" \/ pre = 0
           THEN PrintT("OUT " \o ToJson([cid |-> cid, sched |-> sched, pre |-> pre,
                  outs |-> IF pre = 0 THEN [t \in Thread |-> Outs(ths[t])] ELSE Nil]))
           ELSE TRUE
        /\ cur' = -1
        /\ UNCHANGED << cid, ths, pre, sched >>

Next == Emit \/ (cur # -1 /\ \E t \in Thread : Step(t))
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
RECURSIVE Solo(_, _, _)
Solo(t, th, n) == IF n = 0 THEN th ELSE Solo(t, StepOf(t, th), n - 1)
Taken(t) == Len(SelectSeq(sched, LAMBDA x : x = t))
(* Wherever the others are, a thread is where it would be alone. *)
Independent == \A t \in Thread : ths[t] = Solo(t, Idle, Taken(t))
(* A step of one thread changes no other thread's record. *)
Local == [][\A t \in Thread : cur' # t => ths'[t] = ths[t]]_vars
TypeOK == \A t \in Thread : MachineOK(ths[t].m)
=============================================================================
