------------------------------ MODULE HkTypes ------------------------------
(***************************************************************************)
(* Element types through programs of layers: a program is a sequence of     *)
(* operations on registers, each reading one or two registers and writing   *)
(* a new one.  Layers make their parameters and statistics in the type of   *)
(* what they are applied to and answer in it; where several types meet the  *)
(* smallest common type is used.  Layers that own their element type keep   *)
(* it.  With Hooks the function runs under a creator that stores every      *)
(* parameter in float32 and a getter that hands it out in the type the      *)
(* layer asked for (mixed precision): only what is stored changes.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Wide, Hooks, Free
VARIABLES regs, hist, hooks
vars == << regs, hist, hooks >>

Types == {"float16", "bfloat16", "float32"} \cup (IF Wide THEN {"float64"} ELSE {})
Bits(t) == CASE t = "float64" -> 64 [] t = "float32" -> 32 [] OTHER -> 16
Join(s, t) == IF s = t THEN s
              ELSE IF Bits(s) = Bits(t) THEN "float32"
              ELSE IF Bits(s) > Bits(t) THEN s ELSE t
Default == IF Wide THEN "float64" ELSE "float32"   \* of arrays made without a type

(* [params, state, out] of an operation on type t (and u). *)
R(p, s, o) == [params |-> p, state |-> s, out |-> o]
Weights == {"linear", "bias", "conv", "conv_first", "transpose", "depthwise", "separable", "layer_norm", "instance_norm",
            "group_norm", "instance_norm_scale", "group_norm_offset", "gru", "mlp", "mlp_drop", "conv_lstm", "rnn1"}
Plain == {"avg_pool", "max_pool", "dropout", "batch_apply", "reshape", "relu", "layer_norm_plain"}
Averages == {"ema", "spectral"}
Casts == {"to_float16", "to_bfloat16", "to_float32"}
Unary(op, t) ==
  CASE op \in Weights -> R({t}, {}, t)
    [] op \in Plain -> R({}, {}, t)
    [] op \in {"batch_norm", "block"} -> R({t}, {t}, t)
    [] op = "batch_norm_eval" -> R({t}, {t}, t)
    [] op = "batch_norm_scale" -> R({t}, {t}, t)
    [] op \in Averages \cup {"batch_norm_plain"} -> R({}, {t}, t)
    [] op = "embed" -> R({"float32"}, {}, "float32")
    [] op = "vq" -> R({"float32"}, {}, Join(t, "float32"))
    [] op = "vq_ema" -> R({}, {"float32"}, Join(t, "float32"))
    [] op = "lstm_start" -> R({Join(t, Default)}, {}, Join(t, Default))
    [] op = "to_float16" -> R({}, {}, "float16")
    [] op = "to_bfloat16" -> R({}, {}, "bfloat16")
    [] OTHER -> R({}, {}, "float32")
UnaryOps == Weights \cup Plain \cup Averages \cup Casts
            \cup {"batch_norm", "batch_norm_plain", "batch_norm_scale", "batch_norm_eval", "block", "embed", "vq", "vq_ema", "lstm_start"}
Binary(op, t, u) ==
  CASE op = "add" -> R({}, {}, Join(t, u))
    [] op = "lstm" -> R({Join(t, u)}, {}, Join(t, u))
    [] op = "rnn" -> R({t, u}, {}, Join(t, u))
    [] OTHER -> R({t, u, Join(t, u)}, {}, Join(t, u))   \* attention: query of t, key and value of u, output of both
BinaryOps == {"add", "lstm", "rnn", "attention"}

Stored(r) == IF hooks THEN [r EXCEPT !.params = IF @ = {} THEN {} ELSE {"float32"}] ELSE r
Do(op, a, b, r) ==
  /\ regs' = Append(regs, r.out)
  /\ hist' = Append(hist, [op |-> op, a |-> a, b |-> b, res |-> Stored(r)])
  /\ UNCHANGED hooks

Init == /\ \E t \in Types : regs = << t >>
        /\ hist = << >>
        /\ hooks \in (IF Hooks THEN BOOLEAN ELSE {FALSE})
Apply1 == \E op \in UnaryOps, a \in 1..Len(regs) :
            /\ Len(hist) < Depth
            /\ a = Len(regs) \/ Free
            /\ op = "vq_ema" => Bits(regs[a]) <= 32     \* not specified: it would widen its own statistics
            /\ Do(op, a, a, Unary(op, regs[a]))
Apply2 == \E op \in BinaryOps, a \in 1..Len(regs), b \in 1..Len(regs) :
            /\ Len(hist) < Depth
            /\ a = Len(regs) \/ b = Len(regs)
            /\ Do(op, a, b, Binary(op, regs[a], regs[b]))
Emit == /\ Len(hist) = Depth
        /\ PrintT("OUT " \o ToJson([first |-> regs[1], hooks |-> hooks, hist |-> hist]))
        /\ hist' = Append(hist, [op |-> "done"])
        /\ UNCHANGED << regs, hooks >>
Next == Apply1 \/ Apply2 \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
JoinLaws == \A s, t, u \in Types :
              /\ Join(s, t) = Join(t, s) /\ Join(s, s) = s
              /\ Join(Join(s, t), u) = Join(s, Join(t, u))
Own == {"embed"} \cup Casts
(* Nothing is lost on the way, and nothing is widened beyond what met. *)
TypesKept ==
  \A i \in 1..Len(hist) :
    LET h == hist[i]
    IN  (h.op # "done" /\ h.op \notin Own) =>
          /\ Join(regs[h.a], h.res.out) = h.res.out
          /\ Join(regs[h.b], h.res.out) = h.res.out
          /\ (regs[h.a] = regs[h.b] /\ h.op \notin {"vq", "vq_ema", "lstm_start"}) => h.res.out = regs[h.a]
=============================================================================
