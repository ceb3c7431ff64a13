------------------------------ MODULE HkTensor ------------------------------
(***************************************************************************)
(* Tensors as row-major sequences with a shape.  Axes and indices count     *)
(* from 0, as in the library; positions of the sequence from 1.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Prod(_)
Prod(s) == IF Len(s) = 0 THEN 1 ELSE s[1] * Prod(Tail(s))
RECURSIVE Lin0(_, _, _)
Lin0(s, ix, acc) == IF Len(s) = 0 THEN acc ELSE Lin0(Tail(s), Tail(ix), acc * s[1] + ix[1])
(* Position of an index, and index of a position. *)
Pos(s, ix) == Lin0(s, ix, 0) + 1
Index(s, p) == [a \in 1..Len(s) |-> ((p - 1) \div Prod(SubSeq(s, a + 1, Len(s)))) % s[a]]
At(t, ix) == t.d[Pos(t.s, ix)]
Tensor(s, F(_)) == [s |-> s, d |-> TLCEval([p \in 1..Prod(s) |-> F(Index(s, p))])]
Ndim(t) == Len(t.s)
(* An axis that may be negative. *)
Axis(a, n) == IF a < 0 THEN a + n ELSE a
AxisSet(as, n) == { Axis(as[i], n) : i \in 1..Len(as) }
(* Index with the axes in A set to 0, and shape with those axes of size 1. *)
Fix(ix, A) == [a \in 1..Len(ix) |-> IF a - 1 \in A THEN 0 ELSE ix[a]]
Keep(s, A) == [a \in 1..Len(s) |-> IF a - 1 \in A THEN 1 ELSE s[a]]
(* The elements that agree with ix outside A, in row-major order. *)
Agrees(jx, ix, A) == \A a \in 1..Len(ix) : a - 1 \in A \/ jx[a] = ix[a]
Group(t, ix, A) == SelectSeq([p \in 1..Len(t.d) |-> p], LAMBDA p : Agrees(Index(t.s, p), ix, A))
(* F(1) + ... + F(n), by halves: TLC's stack is not deep. *)
Sum(n, F(_)) == LET RECURSIVE Go(_, _)
                    Go(lo, hi) == IF lo > hi THEN 0
                                  ELSE IF lo = hi THEN F(lo)
                                  ELSE LET m == (lo + hi) \div 2 IN Go(lo, m) + Go(m + 1, hi)
                IN  Go(1, n)
ISum(s) == Sum(Len(s), LAMBDA p : s[p])
=============================================================================
