---------------------------- MODULE HkConvCases ----------------------------
(***************************************************************************)
(* Convolution and pooling layers on concrete integer inputs: every small   *)
(* one dimensional configuration, or random ones from a file.               *)
(***************************************************************************)
EXTENDS HkConv, Json

CONSTANTS Source, Sizes, Kernels, Strides, Dilations
Nil == << >>
Fill(n, a, m) == [p \in 1..n |-> ((p * a + 3) % m) - (m \div 2)]
PadKinds == {"VALID", "SAME", "valid()", "same()", "full()", "causal()", "reverse_causal()", "pair"}
One(kind, n, k, s, d, p, out) ==
  [kind |-> kind, x |-> [s |-> << 1, n, 1 >>, d |-> Fill(n, 7, 11)], K |-> << k >>, S |-> << s >>, D |-> << d >>,
   P |-> << p >>, G |-> 1, w |-> [s |-> << k, 1, 1 >>, d |-> Fill(k, 5, 7)], b |-> << 4 >>, bias |-> FALSE, mask |-> Nil,
   out |-> out, salt |-> n + k + s, W |-> Nil, pad |-> "", w2 |-> [s |-> Nil, d |-> Nil]]
Small ==
  { One("conv", n, k, s, d, [k |-> pk, lo |-> k, hi |-> s], Nil) :
      n \in Sizes, k \in Kernels, s \in Strides, d \in Dilations, pk \in PadKinds }
  \cup { One("transpose", n, k, s, 1, [k |-> pk, lo |-> 0, hi |-> 0], o) :
      n \in Sizes, k \in Kernels, s \in Strides, pk \in {"VALID", "SAME"}, o \in {Nil} \cup { << i >> : i \in 1..9 } }
  \cup { [One(p[1], p[2], 1, p[4], 1, [k |-> "", lo |-> 0, hi |-> 0], Nil) EXCEPT !.W = << 1, p[3], 1 >>, !.S = << 1, p[4], 1 >>, !.pad = p[5]] :
      p \in { q \in {"max", "avg"} \X Sizes \X Kernels \X Strides \X {"VALID", "SAME"} : q[5] = "SAME" \/ q[3] <= q[2] } }
Cases == IF Source = "enum" THEN {} ELSE JsonDeserialize(Source)

VARIABLES cid, c, done
vars == << cid, c, done >>
Init == /\ done = FALSE
        /\ IF Source = "enum" THEN cid = 0 /\ c \in Small
           ELSE cid \in 1..Len(Cases) /\ c = Cases[cid]

X == c.x
W == IF c.mask = Nil THEN c.w ELSE Times(c.w, c.mask)
WithBias(y) == IF c.bias THEN AddBias(y, c.b) ELSE y
Fits == c.kind = "transpose" => TransposeFits(c, Spatial(X))
(* A separable convolution is two depthwise ones, down and across. *)
Sep1 == [c EXCEPT !.K = << c.K[1], 1 >>]
Sep2 == [c EXCEPT !.K = << 1, c.K[2] >>, !.S = << 1, 1 >>]
Result ==
  CASE c.kind = "conv" -> WithBias(Conv(c, X, W))
    [] c.kind = "transpose" -> WithBias(Transposed(c, X, W))
    [] c.kind = "depthwise" -> WithBias(Depthwise(c, X, W))
    [] c.kind = "separable" -> WithBias(Depthwise(Sep2, Depthwise(Sep1, X, W), c.w2))
    [] c.kind = "max" -> MaxPool(c, X)
    [] OTHER -> AvgPool(c, X)
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED << cid, c >>
        /\ PrintT("OUT " \o ToJson([cid |-> cid, c |-> IF cid = 0 THEN << c >> ELSE Nil, ok |-> Fits,
                                    y |-> IF Fits THEN Result ELSE [s |-> Nil, d |-> Nil]]))
Spec == Init /\ [][Emit]_vars

(***************************************************************************)
(* Laws                                                                     *)
(***************************************************************************)
Dot(a, b) == Sum(Len(a.d), LAMBDA p : a.d[p] * b.d[p])
Other(s) == Tensor(s, LAMBDA ix : ((ix[1] * 3 + Sum(Len(ix), LAMBDA a : ix[a] * (a + 1)) + 2) % 5) - 2)
(* Transposed convolution is the adjoint of convolution with the kernel     *)
(* turned around: <conv u, x> = <u, transpose x>.                           *)
Turned(w, n) == Tensor(w.s, LAMBDA k : At(w, [a \in 1..Len(k) |-> IF a <= n THEN w.s[a] - 1 - k[a] ELSE k[a]]))
Adjoint ==
  (~done /\ c.kind = "transpose" /\ Fits) =>
    LET n == Len(c.K)
        y == TLCEval(Transposed(c, X, W))
        u == TLCEval(Other(y.s))
        los == TransposeLos(c, Spatial(X))
        ps == [a \in 1..n |-> << los[a], 0 >>]
        v == TLCEval(ConvP([c EXCEPT !.D = [a \in 1..n |-> 1], !.G = 1], u, Turned(W, n), ps, Spatial(X), Chans(X)))
    IN  y.s = << X.s[1] >> \o TransposeSizes(c, Spatial(X)) \o << W.s[n + 1] >> /\ Dot(v, X) = Dot(u, y)
(* Sizes of named paddings, and what causal paddings read. *)
PadLaws ==
  (~done /\ c.kind = "conv") =>
    LET sp == Spatial(X)
        ps == PadsOf(c, sp)
        o == OutSizes(c, sp)
    IN  \A a \in 1..Len(c.K) :
          LET Reads(i) == { i * c.S[a] + k * c.D[a] - ps[a][1] : k \in 0..(c.K[a] - 1) }
          IN  /\ c.P[a].k = "SAME" => o[a] = CeilDiv(sp[a], c.S[a])
              /\ c.P[a].k = "same()" => o[a] = CeilDiv(sp[a], c.S[a])
              /\ c.P[a].k \in {"VALID", "valid()"} => \A i \in 0..(o[a] - 1) : Reads(i) \subseteq 0..(sp[a] - 1)
              /\ c.P[a].k = "causal()" => \A i \in 0..(o[a] - 1) : \A j \in Reads(i) : j <= i * c.S[a]
              /\ c.P[a].k = "reverse_causal()" => \A i \in 0..(o[a] - 1) : \A j \in Reads(i) : j >= i * c.S[a]
              /\ c.P[a].k = "full()" => \A i \in 0..(o[a] - 1) : \E j \in Reads(i) : j <= sp[a] - 1
(* Channels stay apart: setting the other channels to 0 changes nothing. *)
DepthwiseLaw ==
  (~done /\ c.kind = "depthwise") =>
    LET y == TLCEval(Depthwise(c, X, W))
        m == Chans(y) \div Chans(X)
    IN  \A ch \in 0..(Chans(X) - 1) :
          LET only == Tensor(X.s, LAMBDA ix : IF ix[Len(ix)] = ch THEN At(X, ix) ELSE 0)
              z == TLCEval(Depthwise(c, only, W))
          IN  \A p \in 1..Len(y.d) : IF Index(y.s, p)[Len(y.s)] \div m = ch THEN z.d[p] = y.d[p] ELSE z.d[p] = 0
(* A constant pools to itself. *)
PoolLaw ==
  (~done /\ c.kind \in {"max", "avg"}) =>
    LET k == Tensor(X.s, LAMBDA ix : 5)
        y == TLCEval(MaxPool(c, k))
        z == TLCEval(AvgPool(c, k))
    IN  /\ \A p \in DOMAIN y.d : y.d[p] = 5
        /\ \A p \in DOMAIN z.d : z.d[p][2] > 0 /\ z.d[p][1] = 5 * z.d[p][2]
=============================================================================
