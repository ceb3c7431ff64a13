-------------------------------- MODULE HkVq --------------------------------
(***************************************************************************)
(* Vector quantization over histories of training and evaluation calls.     *)
(* Which codebook entry is nearest to each input is a choice of the         *)
(* environment (the replay finds inputs that realize it); the rest follows: *)
(* the sizes of clusters are exact, and a codebook entry learned by moving  *)
(* averages is a sum of the inputs assigned to it, weighted by call.        *)
(***************************************************************************)
EXTENDS HkRat, FiniteSets, TLC, Json, Randomization

CONSTANTS Depth, K, N, Reps, Decays, MaxRuns, Sample

VARIABLES cfg, past, h, hist, over
vars == << cfg, past, h, hist, over >>
Nil == << >>
(* past: the assignments of all training calls; h: hidden averages of sizes. *)
Zeros == [k \in 1..K |-> Zero]
Count(as, k) == Cardinality({ << r, i >> \in (1..Reps) \X (1..N) : as[r][i] = k })

(* A call: << train, assignment per replica and input >>. *)
Assignments == [1..Reps -> [1..N -> 1..K]]
R1 == { << t, a >> : t \in BOOLEAN, a \in Assignments }
Runs == { << r >> : r \in R1 } \cup IF MaxRuns = 1 THEN {} ELSE { << r, q >> : r \in R1, q \in R1 }
Some == IF Sample = 0 THEN Runs ELSE { [j \in 1..(RandomElement(1..MaxRuns)) |->
                                         << RandomElement(BOOLEAN), [r \in 1..Reps |-> [i \in 1..N |-> RandomElement(1..K)]] >>] : z \in 1..Sample }

Hidden(old, as) == [k \in 1..K |-> RAdd(RMul(old[k], cfg.decay), RMul(Q(Count(as, k)), RSub(One, cfg.decay)))]
Debias(T) == RSub(One, RPow(cfg.decay, T))
(* What is stored: the number of updates, sizes, and the weight of each       *)
(* training call in the averages; codebook entry k is                         *)
(*   sum of weights[t] * (inputs of call t assigned to k) / smooth(sizes)[k]. *)
Stored(p, hh) ==
  [t |-> Len(p), hidden |-> hh, past |-> p,
   sizes |-> IF Len(p) = 0 THEN Zeros ELSE [k \in 1..K |-> RDiv(hh[k], Debias(Len(p)))],
   weights |-> [t \in 1..Len(p) |-> RDiv(RMul(RSub(One, cfg.decay), RPow(cfg.decay, Len(p) - t)), Debias(Len(p)))]]

(* Running calls one after the other: [p, hh, stages] with the stored things before each call. *)
RECURSIVE Go(_, _, _, _)
Go(p, hh, runs, acc) ==
  IF Len(runs) = 0 THEN [p |-> p, h |-> hh, before |-> acc]
  ELSE LET tr == cfg.ema /\ runs[1][1]
           q == IF tr THEN Append(p, runs[1][2]) ELSE p
           g == IF tr THEN Hidden(hh, runs[1][2]) ELSE hh
       IN  Go(q, g, Tail(runs), Append(acc, Stored(p, hh)))

DoInit == /\ hist = Nil
          /\ \E runs \in Some :
               hist' = << [kind |-> "init", runs |-> runs, before |-> Nil, st |-> Stored(Nil, Zeros)] >>
          /\ UNCHANGED << cfg, past, h, over >>
DoApply == /\ hist # Nil /\ Len(hist) < Depth
           /\ \E runs \in Some :
              LET g == Go(past, h, runs, Nil)
              IN  /\ past' = g.p /\ h' = g.h
                  /\ hist' = Append(hist, [kind |-> "apply", runs |-> runs, before |-> g.before, st |-> Stored(g.p, g.h)])
           /\ UNCHANGED << cfg, over >>
Init == /\ \E d \in Decays, e \in BOOLEAN : cfg = [decay |-> R(d, 4), ema |-> e]
        /\ past = Nil /\ h = Zeros /\ hist = Nil /\ over = FALSE
Emit == /\ Len(hist) = Depth /\ ~over
        /\ PrintT("OUT " \o ToJson([cfg |-> cfg, k |-> K, n |-> N, reps |-> Reps, hist |-> hist]))
        /\ over' = TRUE /\ UNCHANGED << cfg, past, h, hist >>
Next == DoInit \/ DoApply \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
Now == Stored(past, h)
(* Every input is in one cluster: debiased sizes sum to the inputs of a call. *)
SizesSum == past # Nil => RSum([k \in 1..K |-> Now.sizes[k]]) = Q(N * Reps)
WeightsSum == past # Nil => RSum(Now.weights) = One
(* Sizes are the weighted counts, like the codebook's inputs. *)
SizesByWeights ==
  \A k \in 1..K : RSum([t \in 1..Len(past) |-> RMul(Now.weights[t], Q(Count(past[t], k)))]) = Now.sizes[k]
OnlyTrainingUpdates ==
  [][(Len(hist') > Len(hist) /\ Len(hist) > 0) =>
       Len(past') - Len(past) = IF cfg.ema THEN Len(SelectSeq(hist'[Len(hist')].runs, LAMBDA r : r[1])) ELSE 0]_vars
=============================================================================
