------------------------------- MODULE HkInit -------------------------------
(***************************************************************************)
(* Initializers and dropout: what they draw, by shape and options.  TLC     *)
(* enumerates shapes and options; for each it gives the number of keys      *)
(* drawn, the mean and variance of the elements, the square of their        *)
(* furthest distance from the middle and, where nothing is random, the      *)
(* elements themselves.  scale and kind count quarters.                     *)
(***************************************************************************)
EXTENDS HkTensor, HkRat, Json

CONSTANTS What, ShapeIds, Scales, Modes, Kinds

Shapes == << << >>, << 1 >>, << 7 >>, << 3000 >>, << 3, 4 >>, << 1, 1 >>, << 40, 90 >>, << 90, 40 >>, << 1, 3000 >>,
             << 3000, 1 >>, << 0, 3 >>, << 2, 3, 4 >>, << 5, 30, 20 >>, << 3, 3, 10, 40 >>, << 2, 2, 2, 4, 100 >>,
             << 4, 4 >>, << 3, 5, 5 >> >>

VARIABLES shape, scale, mode, kind, done
vars == << shape, scale, mode, kind, done >>

N == Prod(shape)
Max(a, b) == IF a < b THEN b ELSE a
Last(s) == s[Len(s)]
Field(s) == Prod(SubSeq(s, 1, Len(s) - 2))
FanIn(s) == IF Len(s) = 0 THEN 1 ELSE IF Len(s) = 1 THEN s[1] ELSE Field(s) * s[Len(s) - 1]
FanOut(s) == IF Len(s) = 0 THEN 1 ELSE IF Len(s) = 1 THEN s[1] ELSE Field(s) * Last(s)
(* Twice the number of units the variance is divided by. *)
Twice(s) == CASE mode = "fan_in" -> 2 * Max(1, FanIn(s))
              [] mode = "fan_out" -> 2 * Max(1, FanOut(s))
              [] OTHER -> Max(2, FanIn(s) + FanOut(s))

S == R(scale, 4)
S2 == RMul(S, S)
No == [dist |-> "", mean |-> Zero, var |-> Zero, bound2 |-> Zero, keys |-> 0, err |-> "", exact |-> << >>,
       axis |-> 0, rows |-> FALSE]
Drawn(dist, mean, var, bound2) ==
  [No EXCEPT !.dist = dist, !.mean = mean, !.var = var, !.bound2 = bound2, !.keys = 1]
Exact(F(_)) == [No EXCEPT !.dist = "exact", !.exact = TLCEval([i \in 1..N |-> F(i)])]
Error == [No EXCEPT !.err = "ValueError"]

(* A normal distribution cut at two deviations has a smaller variance than the
   whole one, by a constant T that the harness knows: "trunc" - var is to be
   multiplied by T; "scaled" - var is exact, bound2 is to be divided by T. *)
Result ==
  CASE What = "constant" -> Exact(LAMBDA i : scale)
    [] What = "identity" ->
         IF Len(shape) < 2 THEN Error
         ELSE LET c == Last(shape)
                  n == shape[Len(shape) - 1] * c
              IN  Exact(LAMBDA i : LET j == (i - 1) % n IN IF j \div c = j % c THEN scale ELSE 0)
    [] What = "normal" -> Drawn("normal", R(kind, 4), S2, Zero)
    [] What = "trunc" -> Drawn("trunc", R(kind, 4), S2, RMul(Q(4), S2))
    [] What = "range" ->       \* from kind to kind + scale
         Drawn("uniform", R(2 * kind + scale, 8), RDiv(S2, Q(12)), RDiv(S2, Q(4)))
    [] What = "variance" ->
         LET v == RDiv(RMul(S, Q(2)), Q(Twice(shape)))
         IN  CASE kind = 0 -> Drawn("normal", Zero, v, Zero)
               [] kind = 1 -> Drawn("uniform", Zero, v, RMul(Q(3), v))
               [] OTHER -> Drawn("scaled", Zero, v, RMul(Q(4), v))
    [] What = "uniscale" ->
         LET n == Prod(SubSeq(shape, 1, Len(shape) - 1))
         IN  Drawn("uniform", Zero, RDiv(S2, Q(n)), RDiv(RMul(Q(3), S2), Q(n)))
    [] What = "orthogonal" ->
         IF Len(shape) < 2 THEN Error
         ELSE LET a == IF kind = 0 THEN Len(shape) ELSE kind
              IN  [Drawn("orthogonal", Zero, S2, Zero) EXCEPT !.axis = a - 1, !.rows = shape[a] * shape[a] <= N]
    [] What = "layers" -> No
    [] OTHER ->
         IF scale >= 4 \/ scale < 0 THEN Error
         ELSE [Drawn("dropout", RSub(One, S), Zero, Zero) EXCEPT !.keys = 0]

(***************************************************************************)
(* What layers draw when not told otherwise: one record per parameter.      *)
(* The last two sizes of shape are input and output sizes, the rest is the  *)
(* kernel.  Weights are drawn so that inputs of unit variance give outputs  *)
(* of unit variance.                                                        *)
(***************************************************************************)
Layers == << "linear", "conv", "transpose", "depthwise", "separable", "embed", "attention", "lstm", "gru", "rnn",
             "convlstm", "layernorm", "batchnorm", "groupnorm", "bias", "mlp" >>
Kernel == SubSeq(shape, 1, Len(shape) - 2)
In == shape[Len(shape) - 1]
Out == Last(shape)
P(path, name, sh, r) == [path |-> path, name |-> name, shape |-> sh, res |-> r]
ByInputs(n) == Drawn("trunc", Zero, R(1, n), R(4, n))
Scaling(s, n) == Drawn("scaled", Zero, RDiv(s, Q(n)), RDiv(RMul(Q(4), s), Q(n)))
All(c, sh) == [No EXCEPT !.dist = "exact", !.exact = TLCEval([i \in 1..Prod(sh) |-> c])]
Zeros(path, name, sh) == P(path, name, sh, All(0, sh))
Ones(path, name, sh) == P(path, name, sh, All(4, sh))
Weight(path, sh) == P(path, "w", sh, ByInputs(Prod(SubSeq(sh, 1, Len(sh) - 1))))
Dense(path, i, o) == << Weight(path, << i, o >>), Zeros(path, "b", << o >>) >>
(* The shape of a bias or scale of n channels, for inputs with the channels last or first. *)
PerChannel(n) == IF mode = "first" THEN << n >> \o [i \in 1..Len(Kernel) |-> 1] ELSE << n >>
Heads == 4
KeySize == 20
ValueSize == 25
Proj(name, i, o) == << P("multi_head_attention/" \o name, "w", << i, o >>, Scaling(S, i)),
                       Zeros("multi_head_attention/" \o name, "b", << o >>) >>
Groups == IF Out % scale = 0 THEN scale ELSE 1
Params(layer) ==
  CASE layer = "linear" -> Dense("linear", In, Out)
    [] layer = "conv" ->
         << Weight("conv_nd", shape), Zeros("conv_nd", "b", PerChannel(Out)) >>
    [] layer = "transpose" ->
         << P("conv_nd_transpose", "w", Kernel \o << Out, In >>, ByInputs(Prod(Kernel) * In)),
            Zeros("conv_nd_transpose", "b", PerChannel(Out)) >>
    [] layer = "depthwise" ->
         << Weight("depthwise_conv2_d", Kernel \o << 1, In * Out >>),
            Zeros("depthwise_conv2_d", "b", PerChannel(In * Out)) >>
    [] layer = "separable" ->
         LET p == "separable_depthwise_conv2_d/~/depthwise_conv2_d"
         IN  << Weight(p, << Kernel[1], 1, 1, In * Out >>), Weight(p \o "_1", << 1, Kernel[2], 1, In * Out >>),
                Zeros(p \o "_1", "b", PerChannel(In * Out)) >>
    [] layer = "embed" -> << P("embed", "embeddings", shape, Drawn("trunc", Zero, One, Q(4))) >>
    [] layer = "attention" ->
         Proj("query", In, Heads * KeySize) \o Proj("key", Out, Heads * KeySize) \o Proj("value", Out, Heads * ValueSize)
           \o Proj("linear", Heads * ValueSize, 30)
    [] layer = "lstm" -> Dense("lstm/linear", In + Out, 4 * Out)
    [] layer = "gru" -> << IF mode = "first" THEN Ones("gru", "w_i", << In, 3 * Out >>)   \* given
                           ELSE P("gru", "w_i", << In, 3 * Out >>, Scaling(One, In)),
                           P("gru", "w_h", << Out, 3 * Out >>, Scaling(One, Out)), Zeros("gru", "b", << 3 * Out >>) >>
    [] layer = "rnn" -> Dense("vanilla_rnn/linear", In, Out)
                          \o (IF mode = "first" THEN Dense("vanilla_rnn/linear_1", Out, Out)
                              ELSE << Weight("vanilla_rnn/linear_1", << Out, Out >>) >>)
    [] layer = "convlstm" ->
         LET c == "conv" \o << "1", "2", "3" >>[Len(Kernel)] \o "_dlstm/"
         IN  << Weight(c \o "input_to_hidden", Kernel \o << In, 4 * Out >>),
                Zeros(c \o "input_to_hidden", "b", << 4 * Out >>),
                Weight(c \o "hidden_to_hidden", Kernel \o << Out, 4 * Out >>),
                Zeros(c \o "hidden_to_hidden", "b", << 4 * Out >>) >>
    [] layer = "layernorm" -> << Ones("layer_norm", "scale", << Out >>), Zeros("layer_norm", "offset", << Out >>) >>
    [] layer = "batchnorm" ->
         LET sh == [i \in 1..Len(Kernel) + 1 |-> 1] IN
         LET ps == IF mode = "first" THEN << 1, Out >> \o [i \in 1..Len(Kernel) |-> 1] ELSE sh \o << Out >>
         IN  << Ones("batch_norm", "scale", ps), Zeros("batch_norm", "offset", ps) >>
    [] layer = "groupnorm" -> << Ones("group_norm", "scale", PerChannel(Out)), Zeros("group_norm", "offset", PerChannel(Out)) >>
    [] layer = "bias" -> << Zeros("bias", "b", << Out >>) >>
    [] OTHER -> Dense("mlp/~/linear_0", In, 50) \o Dense("mlp/~/linear_1", 50, Out)
LayerOK(layer) ==
  /\ N > 0 /\ Len(shape) >= 2
  /\ (mode = "first" => layer \in {"conv", "transpose", "depthwise", "separable", "rnn", "gru", "batchnorm", "groupnorm"})
  /\ IF layer \in {"linear", "embed", "attention", "lstm", "gru", "rnn", "mlp", "bias"} THEN Len(shape) = 2
     ELSE IF layer \in {"depthwise", "separable"} THEN Len(shape) = 4
     ELSE Len(shape) > 2
  /\ (layer = "groupnorm" => Out % scale = 0)
  /\ (layer # "attention" => scale \in {1, 2}) /\ (layer \notin {"conv", "groupnorm", "attention"} => scale = 1)
  /\ (layer = "conv" => Out % scale = 0) /\ (layer = "bias" => Out > 1)
  /\ (layer \in {"lstm", "gru", "rnn"} => Out < 500)

OK == CASE What = "layers" -> LayerOK(Layers[kind])
        [] What = "orthogonal" -> (Len(shape) < 2 /\ kind = 0) \/ (Len(shape) >= 2 /\ kind <= Len(shape) /\ N > 0)
        [] What = "uniscale" -> Len(shape) > 0 /\ Prod(SubSeq(shape, 1, Len(shape) - 1)) > 0
        [] What \in {"constant", "identity"} -> N < 500
        [] OTHER -> TRUE

Init == /\ done = FALSE
        /\ shape \in { Shapes[i] : i \in ShapeIds }
        /\ scale \in (IF What = "dropout" THEN Scales \cup {-1} ELSE Scales)
        /\ mode \in Modes
        /\ kind \in (IF What \in {"normal", "trunc", "range"} THEN { 0, 6, -3 } ELSE Kinds)
        /\ OK
Emit == /\ ~done /\ done' = TRUE
        /\ PrintT("OUT " \o ToJson([what |-> What, shape |-> shape, scale |-> scale, mode |-> mode, kind |-> kind,
                                    layer |-> IF What = "layers" THEN Layers[kind] ELSE "",
                                    params |-> IF What = "layers" THEN Params(Layers[kind]) ELSE << >>, res |-> Result]))
        /\ UNCHANGED << shape, scale, mode, kind >>
Next == Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
Swap(s) == SubSeq(s, 1, Len(s) - 2) \o << Last(s), s[Len(s) - 1] >>
FanLaws ==
  Len(shape) >= 2 => /\ FanIn(Swap(shape)) = FanOut(shape)
                     /\ FanIn(shape) * Last(shape) = N
                     /\ FanOut(shape) * shape[Len(shape) - 1] = N
(* The sum over as many independent elements as there are units has the scale as its variance. *)
Restores == (What = "variance" /\ mode = "fan_in" /\ FanIn(shape) > 0) =>
              RMul(Result.var, Q(FanIn(shape))) = S
(* The average is between. *)
Between == (What = "variance" /\ mode = "fan_avg" /\ N > 0) =>
             LET a == RDiv(S, Q(FanIn(shape)))  b == RDiv(S, Q(FanOut(shape)))
             IN  RLe(RMin(a, b), Result.var) /\ RLe(Result.var, RMax(a, b))
(* Weights restore unit variance: as many inputs as are summed for one output. *)
LayerLaw ==
  What = "layers" =>
    LET ps == Params(Layers[kind])
    IN  \A i \in 1..Len(ps) :
          (ps[i].res.dist = "trunc" /\ Layers[kind] \notin {"embed", "transpose"}) =>
             RMul(ps[i].res.var, Q(Prod(ps[i].shape))) = Q(Last(ps[i].shape))
UniformLaw == Result.dist = "uniform" => Result.bound2 = RMul(Q(3), Result.var)
=============================================================================
