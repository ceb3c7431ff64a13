------------------------------- MODULE HkConv -------------------------------
(***************************************************************************)
(* Convolutions and pooling as index maps.  Tensors here are channels last  *)
(* and batched: << batch, spatial axes, channels >>; the library's other    *)
(* layouts are transpositions of these.                                     *)
(*                                                                          *)
(* A convolution c has c.K (kernel sizes), c.S (strides), c.D (dilations),  *)
(* c.P (paddings [k, lo, hi]), c.G (groups), weights c.w of shape           *)
(* K \o << input channels per group, output channels >>.                    *)
(***************************************************************************)
EXTENDS HkTensor

Spatial(t) == SubSeq(t.s, 2, Len(t.s) - 1)
Chans(t) == t.s[Len(t.s)]
Eff(k, d) == (k - 1) * d + 1
IMax(a, b) == IF a < b THEN b ELSE a
CeilDiv(a, b) == (a + b - 1) \div b

(* What each padding means for size n, kernel k, stride s, dilation d. *)
SamePad(n, e, s) == LET t == IMax((CeilDiv(n, s) - 1) * s + e - n, 0) IN << t \div 2, t - (t \div 2) >>
Pads(p, n, k, s, d) ==
  LET e == Eff(k, d)
  IN  CASE p.k = "VALID" -> << 0, 0 >>
        [] p.k = "SAME" -> SamePad(n, e, s)
        [] p.k = "valid()" -> << 0, 0 >>
        [] p.k = "same()" -> << (e - 1) \div 2, e \div 2 >>
        [] p.k = "full()" -> << e - 1, e - 1 >>
        [] p.k = "causal()" -> << e - 1, 0 >>
        [] p.k = "reverse_causal()" -> << 0, e - 1 >>
        [] OTHER -> << p.lo, p.hi >>
PadsOf(c, sp) == [a \in 1..Len(c.K) |-> Pads(c.P[a], sp[a], c.K[a], c.S[a], c.D[a])]
OutSize(n, p, e, s) == IF n + p[1] + p[2] < e THEN 0 ELSE (n + p[1] + p[2] - e) \div s + 1
OutSizes(c, sp) == LET ps == PadsOf(c, sp)
                   IN  [a \in 1..Len(c.K) |-> OutSize(sp[a], ps[a], Eff(c.K[a], c.D[a]), c.S[a])]

Inside(j, sp) == \A a \in 1..Len(sp) : 0 <= j[a] /\ j[a] < sp[a]

(* The input position that output o reads through kernel position k. *)
From(c, ps, o, k) == [a \in 1..Len(c.K) |-> o[a] * c.S[a] + k[a] * c.D[a] - ps[a][1]]
ConvP(c, x, w, ps, outsp, cout) ==
  LET n == Len(c.K)
      sp == Spatial(x)
      cin == w.s[n + 1]
      ks == TLCEval(c.K \o << cin >>)
  IN  Tensor(<< x.s[1] >> \o outsp \o << cout >>,
        LAMBDA ix :
          LET o == SubSeq(ix, 2, n + 1)
              co == ix[n + 2]
              base == (co \div (cout \div c.G)) * cin
          IN  Sum(Prod(ks), LAMBDA q :
                LET k == Index(ks, q)
                    j == From(c, ps, o, k)
                IN  IF Inside(j, sp)
                    THEN At(x, << ix[1] >> \o j \o << base + k[n + 1] >>) * At(w, k \o << co >>)
                    ELSE 0))
Conv(c, x, w) == ConvP(c, x, w, TLCEval(PadsOf(c, Spatial(x))), OutSizes(c, Spatial(x)), w.s[Len(w.s)])

AddBias(y, b) == [y EXCEPT !.d = TLCEval([p \in 1..Len(y.d) |-> y.d[p] + b[Index(y.s, p)[Len(y.s)] + 1]])]
Times(w, m) == [w EXCEPT !.d = TLCEval([p \in 1..Len(w.d) |-> w.d[p] * m[p]])]

(***************************************************************************)
(* Transposed: input i contributes to output o through kernel position k    *)
(* when o = i * s + (K - 1 - k) - lo.  Weights K \o << out, in >>.          *)
(***************************************************************************)
DefaultOut(p, n, k, s) == IF p = "SAME" THEN n * s ELSE n * s + IMax(k - s, 0)
FitsOut(p, n, k, s, out) == IF p = "SAME" THEN n = CeilDiv(out, s) ELSE out - k + s >= 0 /\ n = (out - k + s) \div s
Lo(p, n, k, s, out) == IF p = "SAME" THEN IMax(0, (n - 1) * s + k - out) \div 2 ELSE 0
TransposeP(c, x, w, los, outsp) ==
  LET n == Len(c.K)
      sp == Spatial(x)
      ks == TLCEval(c.K \o << w.s[n + 2] >>)
  IN  Tensor(<< x.s[1] >> \o outsp \o << w.s[n + 1] >>,
        LAMBDA ix :
          Sum(Prod(ks), LAMBDA q :
            LET k == Index(ks, q)
                at == [a \in 1..n |-> ix[a + 1] - (c.K[a] - 1 - k[a]) + los[a]]
                i == [a \in 1..n |-> at[a] \div c.S[a]]
            IN  IF (\A a \in 1..n : at[a] % c.S[a] = 0) /\ Inside(i, sp)
                THEN At(x, << ix[1] >> \o i \o << k[n + 1] >>) * At(w, SubSeq(k, 1, n) \o << ix[n + 2], k[n + 1] >>)
                ELSE 0))
TransposeSizes(c, sp) ==
  IF c.out # << >> THEN c.out
  ELSE [a \in 1..Len(c.K) |-> DefaultOut(c.P[a].k, sp[a], c.K[a], c.S[a])]
TransposeFits(c, sp) ==
  c.out = << >> \/ \A a \in 1..Len(c.K) : FitsOut(c.P[a].k, sp[a], c.K[a], c.S[a], c.out[a])
TransposeLos(c, sp) == LET o == TransposeSizes(c, sp)
                       IN  [a \in 1..Len(c.K) |-> Lo(c.P[a].k, sp[a], c.K[a], c.S[a], o[a])]
Transposed(c, x, w) == TransposeP(c, x, w, TLCEval(TransposeLos(c, Spatial(x))), TransposeSizes(c, Spatial(x)))

(* Depthwise: output channel j reads input channel j \div multiplier. *)
Depthwise(c, x, w) == Conv([c EXCEPT !.G = Chans(x)], x, w)

(***************************************************************************)
(* Pooling over any axes: windows W and strides S for every axis.           *)
(***************************************************************************)
PoolPads(c, s) == [a \in 1..Len(s) |-> IF c.pad = "VALID" THEN << 0, 0 >> ELSE SamePad(s[a], c.W[a], c.S[a])]
PoolSizes(c, s) == LET ps == PoolPads(c, s)
                   IN  [a \in 1..Len(s) |-> OutSize(s[a], ps[a], c.W[a], c.S[a])]
(* The elements of the window of output o. *)
Window(c, x, ps, o) ==
  LET js == TLCEval([q \in 1..Prod(c.W) |-> LET k == Index(c.W, q)
                                    IN  [a \in 1..Len(x.s) |-> o[a] * c.S[a] + k[a] - ps[a][1]]])
      real == SelectSeq(js, LAMBDA j : Inside(j, x.s))
  IN  TLCEval([q \in 1..Len(real) |-> At(x, real[q])])
RECURSIVE SMax(_)
SMax(s) == IF Len(s) = 1 THEN s[1] ELSE IMax(s[1], SMax(Tail(s)))
MaxPool(c, x) == LET ps == TLCEval(PoolPads(c, x.s)) IN Tensor(PoolSizes(c, x.s), LAMBDA o : SMax(Window(c, x, ps, o)))
(* The mean as << sum, how many >>. *)
AvgPool(c, x) == LET ps == TLCEval(PoolPads(c, x.s))
                 IN  Tensor(PoolSizes(c, x.s), LAMBDA o : LET v == Window(c, x, ps, o) IN << ISum(v), Len(v) >>)
=============================================================================
