------------------------------- MODULE HkRat -------------------------------
(* Exact rational numbers << numerator, denominator >>, reduced, den > 0. *)
EXTENDS Integers, Sequences

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
R(a, b) == LET s == IF b < 0 THEN -1 ELSE 1
               g == Gcd(Abs(a), Abs(b))
           IN  IF a = 0 THEN << 0, 1 >> ELSE << s * (a \div g), s * (b \div g) >>
Q(n) == << n, 1 >>
Zero == Q(0)
One == Q(1)
RAdd(x, y) == LET g == Gcd(x[2], y[2])
              IN  R(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), (x[2] \div g) * y[2])
RNeg(x) == << -x[1], x[2] >>
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == LET a == R(x[1], y[2])
                  b == R(y[1], x[2])
              IN  << a[1] * b[1], a[2] * b[2] >>
RInv(x) == IF x[1] < 0 THEN << -x[2], -x[1] >> ELSE << x[2], x[1] >>
RDiv(x, y) == RMul(x, RInv(y))
RLt(x, y) == RSub(x, y)[1] < 0
RLe(x, y) == RSub(x, y)[1] <= 0
RMax(x, y) == IF RLt(x, y) THEN y ELSE x
RMin(x, y) == IF RLt(x, y) THEN x ELSE y
RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN One ELSE RMul(x, RPow(x, n - 1))
RECURSIVE RSum(_)
RSum(s) == IF Len(s) = 0 THEN Zero ELSE RAdd(s[1], RSum(Tail(s)))
RMean(s) == RDiv(RSum(s), Q(Len(s)))
=============================================================================
