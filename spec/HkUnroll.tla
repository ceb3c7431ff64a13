------------------------------ MODULE HkUnroll ------------------------------
(***************************************************************************)
(* Recurrent cores run over a sequence.  A case gives a tree of cores with  *)
(* integer arithmetic (so that nothing is rounded), the inputs and the      *)
(* reset flags of every time step; TLC explores the ways of cutting the     *)
(* sequence into single calls, static unrolls and dynamic unrolls, made at  *)
(* init, at apply or outside of a transform, and carrying the state.        *)
(*                                                                          *)
(* A core is [k, F, w, i, nest, cnt, sub].  Inputs, outputs and states are  *)
(* sequences of tensors, whose first axis is the batch if there is one.     *)
(***************************************************************************)
EXTENDS HkTensor, TLC, Json

CONSTANTS CaseFile
Cases == JsonDeserialize(CaseFile)
VARIABLES cid, pos, st, calls, hist
vars == << cid, pos, st, calls, hist >>
C == Cases[cid]
Nil == << >>
Mod == 997
Lead == C.lead
NB == Len(Lead)
Row(ix) == SubSeq(ix, 1, NB)
Rest(ix) == SubSeq(ix, NB + 1, Len(ix))
T(shape, F(_)) == Tensor(Lead \o shape, F)
(* The position in the batch as a number. *)
Bno(ix) == IF NB = 0 THEN 0 ELSE ix[1]

RECURSIVE Leaves(_)
Leaves(c) ==
  LET RECURSIVE S(_)
      S(i) == IF i > Len(c.sub) THEN 0 ELSE Leaves(c.sub[i]) + S(i + 1)
  IN  CASE c.k \in {"acc", "tick"} -> 1
        [] c.k = "two" -> 2
        [] c.k \in {"id", "lam", "flagger", "pick"} -> 0
        [] OTHER -> S(1)

RECURSIVE InitState(_)
InitState(c) ==
  LET RECURSIVE S(_)
      S(i) == IF i > Len(c.sub) THEN Nil ELSE InitState(c.sub[i]) \o S(i + 1)
  IN  CASE c.k = "acc" -> << T(<< c.F >>, LAMBDA ix : c.i + 10 * Bno(ix) + Rest(ix)[1]) >>
        [] c.k = "tick" -> << T(Nil, LAMBDA ix : c.i + 10 * Bno(ix)) >>
        [] c.k = "two" -> << T(<< c.F >>, LAMBDA ix : c.i + 10 * Bno(ix) + Rest(ix)[1]),
                             T(<< c.F, 2 >>, LAMBDA ix : c.i + 20 * Bno(ix) + 3 * Rest(ix)[1] + Rest(ix)[2]) >>
        [] c.k \in {"id", "lam", "flagger", "pick"} -> Nil
        [] OTHER -> S(1)

(* The number a toy core makes of its inputs in one row. *)
U(x, b) ==
  LET RECURSIVE K(_, _)
      K(l, k) == IF k = x[l].s[NB + 1] THEN 0
                 ELSE (k + 1 + 10 * (l - 1)) * At(x[l], b \o << k >>) + K(l, k + 1)
      RECURSIVE L(_)
      L(l) == IF l > Len(x) THEN 0 ELSE K(l, 0) + L(l + 1)
  IN  L(1) % Mod

Outs(c, n, O(_)) ==
  LET o == T(<< n >>, LAMBDA ix : O(ix) % Mod)
  IN  IF c.nest THEN << o, T(<< n >>, LAMBDA ix : (O(ix) + 1) % Mod) >> ELSE << o >>

(* Elements of s, or those of i where the flag of their prefix is set. *)
Where(f, i, s) == [s EXCEPT !.d = TLCEval([p \in 1..Len(s.d) |->
                     IF At(f, SubSeq(Index(s.s, p), 1, Len(f.s))) = 1 THEN i.d[p] ELSE s.d[p]])]
Cat(a, b) == LET n == a.s[NB + 1]
             IN  T(<< n + b.s[NB + 1] >>, LAMBDA ix :
                   IF ix[NB + 1] < n THEN At(a, ix) ELSE At(b, Row(ix) \o << ix[NB + 1] - n >>))
CatAll(xs, ys) == [l \in 1..Len(xs) |-> Cat(xs[l], ys[l])]

(***************************************************************************)
(* One step: outputs, flags passed on (if any) and next state.  fl holds    *)
(* the flags of the reset cores met on the way down, outermost first; n is  *)
(* the number of calls made so far, for cores that count them.              *)
(***************************************************************************)
RECURSIVE Step(_, _, _, _, _)
Step(c, x, fl, s, n) ==
  LET extra == IF c.cnt THEN 7 * n ELSE 0
  IN
  CASE c.k = "acc" ->
         LET z == T(<< c.F >>, LAMBDA ix : (3 * At(s[1], ix) + U(x, Row(ix)) + Rest(ix)[1] + c.w) % Mod)
         IN  [o |-> Outs(c, c.F, LAMBDA ix : 2 * At(z, ix) + At(s[1], ix) + extra), fl |-> Nil, s |-> << z >>]
    [] c.k = "tick" ->
         LET z == T(Nil, LAMBDA ix : (At(s[1], ix) + 1 + (U(x, Row(ix)) % 7)) % Mod)
         IN  [o |-> Outs(c, c.F, LAMBDA ix : 10 * At(s[1], Row(ix)) + Rest(ix)[1] + U(x, Row(ix)) + c.w + extra),
              fl |-> Nil, s |-> << z >>]
    [] c.k = "two" ->
         LET a == T(<< c.F >>, LAMBDA ix : (3 * At(s[1], ix) + U(x, Row(ix)) + c.w) % Mod)
             b == T(<< c.F, 2 >>, LAMBDA ix :
                      (5 * At(s[2], ix) + At(s[1], SubSeq(ix, 1, NB + 1)) + Rest(ix)[2]) % Mod)
         IN  [o |-> Outs(c, c.F, LAMBDA ix : At(a, ix) + At(b, ix \o << 0 >>) + 2 * At(b, ix \o << 1 >>) + extra),
              fl |-> Nil, s |-> << a, b >>]
    [] c.k = "id" -> [o |-> x, fl |-> fl, s |-> s]
    [] c.k = "lam" -> [o |-> [l \in 1..Len(x) |-> [x[l] EXCEPT !.d = TLCEval([p \in 1..Len(x[l].d) |-> (2 * x[l].d[p] + 1) % Mod])]],
                       fl |-> fl, s |-> s]
    [] c.k = "pick" -> [o |-> TLCEval([l \in 1..Len(x) |-> T(Nil, LAMBDA ix : At(x[l], ix \o << 0 >>))]), fl |-> fl, s |-> s]
    [] c.k = "flagger" -> [o |-> x, s |-> s,
                           fl |-> << << T(Nil, LAMBDA ix : (At(x[1], ix \o << 0 >>) + 1) % 2) >> >>]
    [] c.k = "reset" ->
         LET i == TLCEval(InitState(c.sub[1]))
             f(l) == IF Len(fl[1]) = 1 THEN fl[1][1] ELSE fl[1][l]
         IN  Step(c.sub[1], x, Tail(fl), TLCEval([l \in 1..Len(s) |-> Where(f(l), i[l], s[l])]), n)
    [] OTHER ->       \* deep or skip
         LET RECURSIVE Go(_, _, _, _, _, _)
             Go(j, cur, f, used, next, outs) ==
               IF j > Len(c.sub)
               THEN [o |-> IF c.k = "skip" THEN outs ELSE cur, fl |-> f, s |-> next]
               ELSE LET in == TLCEval(IF c.k = "skip" /\ j > 1 THEN CatAll(x, cur) ELSE cur)
                        m == Leaves(c.sub[j])
                        r == TLCEval(Step(c.sub[j], in, f, SubSeq(s, used + 1, used + m), n))
                    IN  Go(j + 1, r.o, r.fl, used + m, next \o r.s,
                           IF Len(outs) = 0 THEN r.o ELSE CatAll(outs, r.o))
         IN  Go(1, x, fl, 0, Nil, Nil)

(* The plain loop. *)
RECURSIVE Loop(_, _, _, _)
Loop(from, m, s, n) ==
  IF m = 0 THEN [os |-> Nil, s |-> s]
  ELSE LET r == TLCEval(Step(C.core, C.xs[from + 1], C.fl[from + 1], s, n))
           z == Loop(from + 1, m - 1, r.s, n + 1)
       IN  [os |-> << r.o >> \o z.os, s |-> z.s]

TMax == Len(C.xs)
(* kind = [u, major, at]: what runs, which axis is time, and where. *)
Run(kind, m) ==
  LET r == Loop(pos, m, st, IF kind.at = "init" THEN 0 ELSE calls)
  IN  /\ st' = r.s
      /\ pos' = pos + m
      /\ calls' = IF kind.at = "apply" THEN calls + m ELSE calls
      /\ hist' = Append(hist, [kind |-> kind, m |-> m, os |-> r.os, st |-> r.s, calls |-> calls'])
      /\ UNCHANGED cid
Init == /\ cid \in 1..Len(Cases)
        /\ pos = 0 /\ calls = 0 /\ hist = Nil
        /\ st = InitState(C.core)
Some == /\ pos < TMax
        /\ \E i \in 1..Len(C.kinds), m \in 1..(TMax - pos) :
             /\ C.kinds[i].u = "step" => m = 1
             /\ Run(C.kinds[i], m)
Emit == /\ pos = TMax
        /\ PrintT("OUT " \o ToJson([cid |-> cid, i0 |-> InitState(C.core), hist |-> hist]))
        /\ pos' = TMax + 1 /\ UNCHANGED << cid, st, calls, hist >>
Next == Some \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
RECURSIVE Concat(_)
Concat(h) == IF Len(h) = 0 THEN Nil ELSE h[1].os \o Concat(Tail(h))
(* However the sequence is cut, it is the one loop from the start. *)
Counts == \E i \in 1..Len(C.kinds) : C.kinds[i].at = "init"
CutsAgree ==
  (pos <= TMax /\ ~(C.counting /\ Counts)) =>
    LET r == Loop(0, pos, InitState(C.core), 0)
    IN  st = r.s /\ Concat(hist) = r.os
(* The wrapped core, from the initial state where flagged. *)
Const(v) == << T(Nil, LAMBDA ix : v) >>
ResetLaw ==
  (pos < TMax /\ C.core.k = "reset") =>
    LET inner == C.core.sub[1]
        x == C.xs[pos + 1]
        fl == C.fl[pos + 1]
    IN  /\ Step(C.core, x, << Const(1) >> \o Tail(fl), st, calls) = Step(inner, x, Tail(fl), InitState(inner), calls)
        /\ Step(C.core, x, << Const(0) >> \o Tail(fl), st, calls) = Step(inner, x, Tail(fl), st, calls)
(* Each batch element is as it would be with the flags of another. *)
ShapesStay == LET i == InitState(C.core)
              IN  Len(st) = Len(i) /\ \A l \in 1..Len(i) : st[l].s = i[l].s /\ Len(st[l].d) = Prod(i[l].s)
=============================================================================
