------------------------------- MODULE HkEma -------------------------------
(***************************************************************************)
(* Exponential moving averages: one ExponentialMovingAverage, or one per    *)
(* parameter of a tree (EMAParamsTree), over histories of init and apply    *)
(* calls.  Numbers are exact rationals.                                     *)
(***************************************************************************)
EXTENDS HkRat, FiniteSets, TLC, Json, Randomization

CONSTANTS Depth,
          Decays,   \* in quarters
          MaxRuns,  \* module calls per transformed call
          Warmups,
          Sample,   \* 0: every call, else so many random ones at each step
          Values,   \* inputs
          Mode      \* "one" or "tree"

VARIABLES cfg,   \* [decay, debias, warmup, rx, paths]
          st,    \* path -> [c, h, a] or, before anything is known, "new"
          hist
vars == << cfg, st, hist >>
Nil == << >>

(***************************************************************************)
(* One average.  a is Nil while no average is stored.                       *)
(***************************************************************************)
Fresh == [c |-> -cfg.warmup, h |-> Zero, a |-> IF cfg.pre THEN Zero ELSE Nil, n |-> FALSE]
New == [c |-> 0, h |-> Zero, a |-> Nil, n |-> TRUE]
Decay(c) == IF cfg.warmup > 0 /\ c <= 0 THEN Zero ELSE cfg.decay
Updated(s, x) ==
  LET c == s.c + 1
      d == Decay(c)
      h == RAdd(RMul(s.h, d), RMul(x, RSub(One, d)))
      a == IF cfg.debias THEN RDiv(h, RSub(One, RPow(cfg.decay, c))) ELSE h
  IN  [c |-> c, h |-> h, a |-> a, n |-> FALSE]
Given(s) == IF s.n THEN Fresh ELSE s

(***************************************************************************)
(* The defining formula: a weighted sum over all inputs so far.             *)
(***************************************************************************)
RECURSIVE Weighted(_, _)
Weighted(xs, d) == IF Len(xs) = 0 THEN Zero
                   ELSE RAdd(RMul(Weighted(SubSeq(xs, 1, Len(xs) - 1), d), d),
                             RMul(xs[Len(xs)], RSub(One, d)))

(***************************************************************************)
(* Trees                                                                    *)
(***************************************************************************)
AllPaths == << "a/w", "a/b", "a/w_1", "a/~/b/w", "w/a", "a__b/w", "a/b__w" >>
Rxs == {"", ".*/w", "a/b", "a.*", ".*_1$", "b"}
Ignored(rx, p) ==
  CASE rx = "" -> FALSE
    [] rx = ".*/w" -> p \in {"a/w", "a/w_1", "a/~/b/w", "a__b/w"}
    [] rx = "a/b" -> p \in {"a/b", "a/b__w"}   \* a match of the beginning suffices
    [] rx = "a.*" -> p # "w/a"
    [] rx = ".*_1$" -> p = "a/w_1"
    [] OTHER -> FALSE
Paths == DOMAIN st
Vec(i, p) == LET k == CHOOSE j \in 1..Len(AllPaths) : AllPaths[j] = p
             IN  << Q(i * k), R(i - k, 2) >>
In(i, p) == IF Mode = "one" THEN << Q(i), R(i * i - 3, 2) >> ELSE Vec(i, p)

(* State per path and element: sequences of two averages. *)
Outs(o) == [p \in DOMAIN o |-> o[p]]
Put(kind, op, r, s) ==
  /\ st' = s
  /\ hist' = Append(hist, [kind |-> kind, op |-> op, r |-> r, st |-> s])
  /\ UNCHANGED cfg

(***************************************************************************)
(* Calls.  A call runs the module once or twice on inputs i, updating or    *)
(* not.  init reports the first value of every entry.                       *)
(***************************************************************************)
Runs == { << << i, u >> >> : i \in Values, u \in BOOLEAN }
        \cup IF MaxRuns = 1 THEN {} ELSE { << << i, u >>, << j, w >> >> : i \in Values, j \in Values, u \in BOOLEAN, w \in BOOLEAN }
SomeRuns == IF Sample = 0 THEN Runs ELSE RandomSubset(Sample, Runs)
Ran(s, i, u, p) ==    \* [out, s] for the elements of path p
  LET x == In(i, p)
      n == [e \in 1..2 |-> Updated(Given(s[e]), x[e])]
  IN  IF Ignored(cfg.rx, p) THEN [out |-> x, s |-> s]
      ELSE [out |-> [e \in 1..2 |-> n[e].a],
            s |-> [e \in 1..2 |-> IF u THEN n[e] ELSE Given(s[e])]]
RECURSIVE RunAll(_, _, _)
RunAll(s, runs, outs) ==
  IF Len(runs) = 0 THEN [s |-> s, outs |-> outs]
  ELSE LET r == [p \in DOMAIN s |-> Ran(s[p], runs[1][1], runs[1][2], p)]
       IN  RunAll([p \in DOMAIN s |-> r[p].s], Tail(runs),
                  Append(outs, [p \in DOMAIN s |-> r[p].out]))
(* What init leaves: first values. *)
First(p, s, runs) ==
  IF Ignored(cfg.rx, p) THEN s
  ELSE [e \in 1..2 |->
         LET ups == SelectSeq(runs, LAMBDA r : r[2])
             one == Updated(Fresh, In(ups[1][1], p)[e])
         IN  IF Len(ups) = 0 THEN Fresh
             ELSE [Fresh EXCEPT !.a = IF cfg.pre THEN Zero ELSE one.a]]
DoInit == /\ hist = Nil
          /\ \E runs \in SomeRuns :
             LET new == [p \in Paths |-> << New, New >>]
                 r == RunAll(new, runs, Nil)
             IN  Put("init", [runs |-> runs], Nil, [p \in Paths |-> First(p, new[p], runs)])
DoApply == /\ hist # Nil /\ Len(hist) < Depth
           /\ \E runs \in SomeRuns :
              LET r == RunAll(st, runs, Nil)
              IN  Put("apply", [runs |-> runs], r.outs, r.s)
(* Reading the stored average of a single moving average. *)
DoRead == /\ hist # Nil /\ Len(hist) < Depth /\ Mode = "one"
          /\ LET a == [e \in 1..2 |-> st["ema"][e].a]
             IN  Put("read", [runs |-> Nil], IF a[1] = Nil THEN "error" ELSE a, st)

Init == /\ \E d \in Decays, w \in Warmups, b \in BOOLEAN, rx \in Rxs, pre \in BOOLEAN :
             /\ ~(b /\ w > 0) /\ (Mode = "one" => rx = "") /\ (Mode = "tree" => ~pre)
             /\ cfg = [decay |-> R(d, 4), debias |-> b, warmup |-> w, rx |-> rx, pre |-> pre]
        /\ IF Mode = "one" THEN st = ("ema" :> << New, New >>)
           ELSE \E n \in 1..Len(AllPaths) : st = [p \in { AllPaths[i] : i \in 1..n } |-> << New, New >>]
        /\ hist = Nil
Emit == /\ Len(hist) = Depth
        /\ PrintT("OUT " \o ToJson([cfg |-> cfg, hist |-> hist]))
        /\ hist' = Append(hist, [kind |-> "emitted"]) /\ UNCHANGED << cfg, st >>
Next == DoInit \/ DoApply \/ DoRead \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
RECURSIVE Flat(_)
Flat(h) == IF Len(h) = 0 THEN Nil
           ELSE (IF h[1].kind = "apply" THEN SelectSeq(h[1].op.runs, LAMBDA r : r[2]) ELSE Nil) \o Flat(Tail(h))
(* The state is that of the defining sum over the updating inputs alone. *)
Recurrence ==
  (hist # Nil /\ Len(hist) <= Depth) =>
  \A p \in Paths : ~Ignored(cfg.rx, p) => \A e \in 1..2 :
    LET ups == Flat(hist)
        xs == [i \in 1..Len(ups) |-> In(ups[i][1], p)[e]]
        w == cfg.warmup
        s == st[p][e]
    IN  /\ s.c = Len(xs) - w
        /\ IF w = 0 THEN s.h = Weighted(xs, cfg.decay)
           ELSE IF Len(xs) = 0 THEN s.h = Zero
           ELSE IF Len(xs) <= w THEN s.h = xs[Len(xs)]
           ELSE LET late == SubSeq(xs, w + 1, Len(xs))
                IN  s.h = RAdd(Weighted(late, cfg.decay), RMul(xs[w], RPow(cfg.decay, Len(late))))
        /\ (Len(xs) > 0 /\ cfg.debias) =>
             s.a = RDiv(s.h, RSub(One, RPow(cfg.decay, Len(xs))))
        /\ (Len(xs) > 0 /\ ~cfg.debias) => s.a = s.h
(* A constant input has that constant as debiased average. *)
Unbiased ==
  (hist # Nil /\ Len(hist) <= Depth /\ cfg.debias) =>
  \A p \in Paths : ~Ignored(cfg.rx, p) => \A e \in 1..2 :
    LET ups == Flat(hist)
        xs == { In(ups[i][1], p)[e] : i \in 1..Len(ups) }
    IN  Cardinality(xs) = 1 => st[p][e].a \in xs
(* Calls that do not update change nothing. *)
QuietCalls ==
  [][(Len(hist') > 1 /\ hist'[Len(hist')].kind # "emitted"
      /\ \A i \in 1..Len(hist'[Len(hist')].op.runs) : ~hist'[Len(hist')].op.runs[i][2]) => st' = st]_vars
=============================================================================
