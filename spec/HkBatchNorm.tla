---------------------------- MODULE HkBatchNorm ----------------------------
(***************************************************************************)
(* Batch normalization over histories of training and evaluation calls.     *)
(* A case fixes the module's options and a few inputs; TLC explores the     *)
(* calls.  An output element is << x, m, v, s, o >>, standing for           *)
(* (x - m) / sqrt(v + eps) * s + o.                                         *)
(***************************************************************************)
EXTENDS HkRat, HkTensor, TLC, Json, Randomization

CONSTANTS CaseFile, Depth, Sample
Cases == JsonDeserialize(CaseFile)

VARIABLES cid, st, hist
vars == << cid, st, hist >>
C == Cases[cid]
Nil == << >>

N == Len(C.shape)
ChannelAxis == IF C.fmt \in {"channels_first", "NC..."} THEN 1 ELSE N - 1
Reduced == IF C.axis = Nil THEN 0..(N - 1) \ {ChannelAxis} ELSE AxisSet(C.axis, N)
WShape == Keep(C.shape, Reduced)
W == Prod(WShape)
WPos(p) == Pos(WShape, Fix(Index(C.shape, p), Reduced))
X(i, rep) == [s |-> C.shape, d |-> C.xs[i][rep]]
Reps == 1..C.reps

(* Mean and variance of the group of statistic w, over all replicas. *)
Elems(i, w) == LET ix == Index(WShape, w)
               IN  Group(X(i, 1), ix, Reduced)
AllVals(i, w) == LET g == Elems(i, w)
                     RECURSIVE Cat(_)
                     Cat(r) == IF r > C.reps THEN Nil
                               ELSE [k \in 1..Len(g) |-> Q(C.xs[i][r][g[k]])] \o Cat(r + 1)
                 IN  Cat(1)
Mean(i, w) == RMean(AllVals(i, w))
Var(i, w) == LET xs == AllVals(i, w)
                 m == RMean(xs)
             IN  RMean([k \in 1..Len(xs) |-> RMul(RSub(xs[k], m), RSub(xs[k], m))])

(* The moving averages: no warm-up, always debiased.  a = Nil: never stored. *)
Fresh == [c |-> 0, h |-> Zero, a |-> Nil]
D == R(C.decay, 4)
Updated(s, x) ==
  LET c == s.c + 1
      h == RAdd(RMul(s.h, D), RMul(x, RSub(One, D)))
  IN  [c |-> c, h |-> h, a |-> RDiv(h, RSub(One, RPow(D, c)))]
NoStats == [c |-> -1]
Stats0 == [made |-> FALSE, m |-> [w \in 1..W |-> Fresh], v |-> [w \in 1..W |-> Fresh]]

(***************************************************************************)
(* One use of the module: r = [k, x, sc, of] with the numbers of the scale  *)
(* and offset arguments (0: none given).                                    *)
(***************************************************************************)
Own(create, arg, own, args, dflt, w) ==
  IF create THEN Q(own[w]) ELSE IF arg = 0 THEN dflt ELSE Q(args[arg][w])
Use(s, r, scale, offset) ==
  LET local == r.k \in {"train", "local"}
      ms == [w \in 1..W |-> IF local THEN Mean(r.x, w) ELSE s.m[w].a]
      vs == [w \in 1..W |-> IF local THEN Var(r.x, w) ELSE s.v[w].a]
      ok == local \/ s.made
      new == IF r.k # "train" THEN s
             ELSE [made |-> TRUE, m |-> [w \in 1..W |-> Updated(s.m[w], ms[w])],
                   v |-> [w \in 1..W |-> Updated(s.v[w], vs[w])]]
      El(p, rep) == LET w == WPos(p)
                    IN  << Q(C.xs[r.x][rep][p]), ms[w], vs[w],
                           Own(C.cs, r.sc, scale, C.args, One, w),
                           Own(C.co, r.of, offset, C.args, Zero, w) >>
  IN  [ok |-> ok, s |-> new,
       out |-> IF ok THEN [rep \in Reps |-> [p \in 1..Prod(C.shape) |-> El(p, rep)]] ELSE Nil]
RECURSIVE UseAll(_, _, _)
UseAll(s, runs, outs) ==
  IF Len(runs) = 0 THEN [ok |-> TRUE, s |-> s, outs |-> outs]
  ELSE LET u == Use(s, runs[1], C.scale, C.offset)
       IN  IF ~u.ok THEN [ok |-> FALSE, s |-> s, outs |-> Nil]
           ELSE UseAll(u.s, Tail(runs), Append(outs, u.out))

Kinds == {"train", "eval", "local"}
One1 == { [k |-> k, x |-> x, sc |-> sc, of |-> of] :
          k \in Kinds, x \in 1..Len(C.xs), sc \in (IF C.cs THEN {0} ELSE 0..2), of \in (IF C.co THEN {0} ELSE 0..2) }
Runs == { << r >> : r \in One1 } \cup (IF Sample = 0 THEN {} ELSE { << r, q >> : r \in One1, q \in One1 })
Some == IF Sample = 0 THEN Runs ELSE RandomSubset(Sample, Runs)

Put(kind, runs, u, s) ==
  /\ st' = s
  /\ hist' = Append(hist, [kind |-> kind, runs |-> runs, ok |-> u.ok, outs |-> u.outs, st |-> s])
  /\ UNCHANGED cid
DoInit == /\ hist = Nil
          /\ \E runs \in Some :
             LET u == UseAll(Stats0, runs, Nil)
                 first == [made |-> TRUE,
                           m |-> [w \in 1..W |-> [Fresh EXCEPT !.a = u.s.m[w].a]],
                           v |-> [w \in 1..W |-> [Fresh EXCEPT !.a = u.s.v[w].a]]]
                 \* the first average stored, not the last
                 t1 == SelectSeq(runs, LAMBDA r : r.k = "train")
                 f1 == [first EXCEPT !.m = [w \in 1..W |-> [Fresh EXCEPT !.a = Mean(t1[1].x, w)]],
                                     !.v = [w \in 1..W |-> [Fresh EXCEPT !.a = Var(t1[1].x, w)]]]
             IN  /\ u.ok
                 /\ Put("init", runs, [ok |-> TRUE, outs |-> Nil], IF Len(t1) = 0 THEN Stats0 ELSE f1)
DoApply == /\ hist # Nil /\ Len(hist) < Depth
           /\ \E runs \in Some :
              LET u == UseAll(st, runs, Nil)
              IN  Put("apply", runs, u, IF u.ok THEN u.s ELSE st)
Init == /\ cid \in 1..Len(Cases) /\ hist = Nil
        /\ st = Stats0
Emit == /\ Len(hist) = Depth
        /\ PrintT("OUT " \o ToJson([cid |-> cid, hist |-> hist]))
        /\ hist' = Append(hist, [kind |-> "emitted"]) /\ UNCHANGED << cid, st >>
Next == DoInit \/ DoApply \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
Last == hist[Len(hist)]
Live == hist # Nil /\ Last.kind = "apply" /\ Last.ok
(* What training normalizes has mean 0 and, up to eps, variance 1. *)
Normalizes ==
  Live => \A i \in 1..Len(Last.runs) : Last.runs[i].k \in {"train", "local"} =>
    \A w \in 1..W :
      LET g == Elems(Last.runs[i].x, w)
          RECURSIVE Cat(_)
          Cat(r) == IF r > C.reps THEN Nil
                    ELSE [k \in 1..Len(g) |-> RSub(Last.outs[i][r][g[k]][1], Last.outs[i][r][g[k]][2])] \o Cat(r + 1)
          ds == Cat(1)
      IN  /\ RSum(ds) = Zero
          /\ RMean([k \in 1..Len(ds) |-> RMul(ds[k], ds[k])]) = Last.outs[i][1][g[1]][3]
VarNonNegative == \A w \in 1..W : st.v[w].a # Nil => ~RLt(st.v[w].a, Zero)
InStep == st.made => \A w \in 1..W : st.m[w].c = st.m[1].c /\ st.v[w].c = st.m[1].c
OnlyTrainingUpdates ==
  [][(Len(hist') > 1 /\ hist'[Len(hist')].kind = "apply") =>
       LET k == Len(SelectSeq(hist'[Len(hist')].runs, LAMBDA r : r.k = "train"))
       IN  IF hist'[Len(hist')].ok THEN st'.m[1].c = st.m[1].c + k /\ (k = 0 => st' = st)
           ELSE st' = st]_vars
=============================================================================
