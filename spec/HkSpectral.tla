---------------------------- MODULE HkSpectral ----------------------------
(***************************************************************************)
(* Spectral normalization: one SpectralNorm, or one per parameter of a tree *)
(* (SNParamsTree), over histories of calls.  Numbers stay symbolic: the     *)
(* stored vector is the chain of the values it has been iterated with since *)
(* its random start, and the stored singular value that of such a chain.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Depth,
          MaxRuns,  \* module calls per transformed call
          Sample,   \* 0: every call, else so many random ones at each step
          Values,   \* numbers of inputs, see Rank
          Mode      \* "one" or "tree"

VARIABLES cfg, st, hist, over
vars == << cfg, st, hist, over >>
Nil == << >>

AllPaths == << "a/w", "a/b", "a/w_1", "a/~/b/w", "w/a", "a__b/w", "a/b__w" >>
Rxs == {"", ".*/w", "a/b", "a.*", ".*_1$", "b"}
Ignored(rx, p) ==
  CASE rx = "" -> FALSE
    [] rx = ".*/w" -> p \in {"a/w", "a/w_1", "a/~/b/w", "a__b/w"}
    [] rx = "a/b" -> p \in {"a/b", "a/b__w"}   \* a match of the beginning suffices
    [] rx = "a.*" -> p # "w/a"
    [] rx = ".*_1$" -> p = "a/w_1"
    [] OTHER -> FALSE
(* Ranks of the inputs of each number; a tree's parameter a/b may be a vector. *)
Ranks == << 2, 2, 3, 4, 1, 0, 2 >>
Rank(i, p) == IF Mode = "one" THEN Ranks[i] ELSE IF p = "a/b" /\ cfg.vec THEN 1 ELSE IF p = "w/a" THEN 3 ELSE 2

(* u: chain of updates; s: chain of the stored singular value, if any is. *)
New == [new |-> TRUE, u |-> Nil, has |-> FALSE, s |-> Nil]
Fresh == [New EXCEPT !.new = FALSE]
Run1(s, r, p) ==
  LET i == r[1]
      bad == Rank(i, p) <= 1 \/ (r[3] /\ Rank(i, p) > 2)
      c == Append(s.u, i)
  IN  IF Ignored(cfg.rx, p) THEN [ok |-> TRUE, out |-> [id |-> i, by |-> Nil], s |-> s]
      ELSE IF bad THEN [ok |-> FALSE, out |-> [id |-> i, by |-> Nil], s |-> s]
      ELSE [ok |-> TRUE, out |-> [id |-> i, by |-> c],
            s |-> IF r[2] THEN [new |-> FALSE, u |-> c, has |-> TRUE, s |-> c] ELSE [s EXCEPT !.new = FALSE]]
RECURSIVE RunAll(_, _, _)
RunAll(s, runs, outs) ==
  IF Len(runs) = 0 THEN [ok |-> TRUE, s |-> s, outs |-> outs]
  ELSE LET r == [p \in DOMAIN s |-> Run1(s[p], runs[1], p)]
       IN  IF \E p \in DOMAIN s : ~r[p].ok THEN [ok |-> FALSE, s |-> s, outs |-> Nil]
           ELSE RunAll([p \in DOMAIN s |-> r[p].s], Tail(runs), Append(outs, [p \in DOMAIN s |-> r[p].out]))

(* A run: << input, update, strict >>. *)
Stricts == IF Mode = "one" THEN BOOLEAN ELSE {FALSE}
R1 == { << i, u, e >> : i \in Values, u \in BOOLEAN, e \in Stricts }
Runs == { << r >> : r \in R1 } \cup IF MaxRuns = 1 THEN {} ELSE { << r, q >> : r \in R1, q \in R1 }
Some == IF Sample = 0 THEN Runs ELSE RandomSubset(Sample, Runs)

Put(kind, runs, ok, outs, s) ==
  /\ st' = s
  /\ hist' = Append(hist, [kind |-> kind, runs |-> runs, ok |-> ok, outs |-> outs, st |-> s])
  /\ UNCHANGED << cfg, over >>
(* init reports the first value of every entry. *)
DoInit == /\ hist = Nil
          /\ \E runs \in Some :
             LET new == [p \in DOMAIN st |-> New]
                 r == RunAll(new, runs, Nil)
                 ups == SelectSeq(runs, LAMBDA q : q[2])
                 First(p) == IF Ignored(cfg.rx, p) THEN New
                             ELSE IF Len(ups) = 0 THEN Fresh
                             ELSE [Fresh EXCEPT !.has = TRUE, !.s = << ups[1][1] >>]
             IN  r.ok /\ Put("init", runs, TRUE, Nil, [p \in DOMAIN st |-> First(p)])
(* A function that cannot be initialized. *)
DoBad == /\ hist = Nil
         /\ \E runs \in Some :
            /\ ~RunAll([p \in DOMAIN st |-> New], runs, Nil).ok
            /\ hist' = [i \in 1..Depth |-> [kind |-> IF i = 1 THEN "init" ELSE "none", runs |-> runs, ok |-> FALSE, outs |-> Nil, st |-> st]]
            /\ UNCHANGED << cfg, st, over >>
DoApply == /\ hist # Nil /\ Len(hist) < Depth
           /\ \E runs \in Some :
              LET r == RunAll(st, runs, Nil)
              IN  Put("apply", runs, r.ok, r.outs, IF r.ok THEN r.s ELSE st)
(* Reading the stored vector and singular value; 1 if there is none yet. *)
DoRead == /\ hist # Nil /\ Len(hist) < Depth /\ Mode = "one"
          /\ Put("read", Nil, TRUE, Nil, [st EXCEPT !["sn"].has = TRUE])
Init == /\ \E n \in 1..3, e \in 1..2, rx \in Rxs, vec \in BOOLEAN :
             /\ (Mode = "one" => rx = "" /\ ~vec)
             /\ cfg = [n |-> n, eps |-> e, rx |-> rx, vec |-> vec]
        /\ IF Mode = "one" THEN st = ("sn" :> New)
           ELSE \E n \in 1..Len(AllPaths) : st = [p \in { AllPaths[i] : i \in 1..n } |-> New]
        /\ hist = Nil /\ over = FALSE
Emit == /\ Len(hist) = Depth /\ ~over
        /\ PrintT("OUT " \o ToJson([cfg |-> cfg, hist |-> hist]))
        /\ over' = TRUE /\ UNCHANGED << cfg, st, hist >>
Next == DoInit \/ DoBad \/ DoApply \/ DoRead \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
RECURSIVE Ups(_)
Ups(h) == IF Len(h) = 0 THEN Nil
          ELSE (IF h[1].kind = "apply" /\ h[1].ok
                THEN LET f == SelectSeq(h[1].runs, LAMBDA r : r[2]) IN [i \in 1..Len(f) |-> f[i][1]] ELSE Nil) \o Ups(Tail(h))
(* The vector has been iterated with the values of the updating calls, once each. *)
OncePerUpdate ==
  (hist # Nil /\ hist[1].ok) => \A p \in DOMAIN st : ~Ignored(cfg.rx, p) => st[p].u = Ups(hist)
(* The stored singular value belongs to the stored vector. *)
InStep == \A p \in DOMAIN st : st[p].u # Nil => st[p].has /\ st[p].s = st[p].u
QuietCalls ==
  [][(Len(hist') > Len(hist) /\ Len(hist) > 0 /\ \A i \in 1..Len(hist'[Len(hist')].runs) : ~hist'[Len(hist')].runs[i][2])
     => \A p \in DOMAIN st : st'[p].u = st[p].u /\ st'[p].s = st[p].s]_vars
=============================================================================
