------------------------------- MODULE HkNets -------------------------------
(***************************************************************************)
(* The networks the library ships: residual networks of both versions,      *)
(* their groups and blocks, and MobileNet.  A case gives the options and    *)
(* the input's shape.  The network is a graph of nodes in evaluation order, *)
(* each naming the nodes it reads, the module whose parameters it uses and  *)
(* the geometry of its windows.  A behaviour is a history of calls, each    *)
(* training, evaluating or evaluating with the batch's own statistics.      *)
(***************************************************************************)
EXTENDS HkTensor, Json

CONSTANTS CaseFile, MaxCalls
Cases == JsonDeserialize(CaseFile)
VARIABLES cid, hist, done
vars == << cid, hist, done >>
C == Cases[cid]
Nil == << >>
Max(a, b) == IF a < b THEN b ELSE a
Str(x) == ToString(x)

(***************************************************************************)
(* Building a graph: nodes, parameters, and the node that is current.       *)
(***************************************************************************)
Node0 == [op |-> "input", ins |-> Nil, path |-> "", shape |-> Nil, k |-> 0, s |-> Nil, pad |-> Nil]
Start(shape) == [nodes |-> << [Node0 EXCEPT !.shape = shape] >>, params |-> Nil, at |-> 1]
Shape(g) == g.nodes[g.at].shape
Push(g, node) == [g EXCEPT !.nodes = Append(@, node), !.at = Len(g.nodes) + 1]
Param(g, path, name, shape, init) ==
  [g EXCEPT !.params = Append(@, [path |-> path, name |-> name, shape |-> shape, init |-> init])]

(* Padding before and after, and the number of windows. *)
Pad(how, n, k, s) ==
  CASE how = "VALID" -> << 0, 0 >>
    [] how = "ONE" -> << 1, 1 >>
    [] OTHER -> LET out == (n + s - 1) \div s
                    all == Max((out - 1) * s + k - n, 0)
                IN  << all \div 2, all - all \div 2 >>
Windows(n, k, s, p) == (n + p[1] + p[2] - k) \div s + 1
Slide(g, op, path, k, s, how, chan) ==
  LET x == Shape(g)
      p == << Pad(how, x[2], k, s[1]), Pad(how, x[3], k, s[2]) >>
  IN  Push(g, [op |-> op, ins |-> << g.at >>, path |-> path, k |-> k, s |-> s, pad |-> p,
               shape |-> << x[1], Windows(x[2], k, s[1], p[1]), Windows(x[3], k, s[2], p[2]), chan >>])
Biased(g, path, n, bias) == IF bias THEN Param(g, path, "b", << n >>, "zeros") ELSE g
Conv(g, path, chan, k, s, how, bias) ==
  LET x == Shape(g)
  IN  Biased(Param(Slide(g, "conv", path, k, s, how, chan), path, "w", << k, k, x[4], chan >>, "draw"), path, chan, bias)
Depthwise(g, path, k, s, how, bias) ==
  LET x == Shape(g)
  IN  Biased(Param(Slide(g, "depthwise", path, k, s, how, x[4]), path, "w", << k, k, 1, x[4] >>, "draw"), path, x[4], bias)
Pointwise(g, op, path) == Push(g, [Node0 EXCEPT !.op = op, !.ins = << g.at >>, !.path = path, !.shape = Shape(g)])
Norm(g, path, init) ==
  LET sh == << 1, 1, 1, Shape(g)[4] >>
  IN  Param(Param(Pointwise(g, "norm", path), path, "scale", sh, init), path, "offset", sh, "zeros")
Relu(g) == Pointwise(g, "relu", "")
Add(g, i, j) == Push(g, [Node0 EXCEPT !.op = "add", !.ins = << i, j >>, !.shape = g.nodes[i].shape])
Mean(g) == Push(g, [Node0 EXCEPT !.op = "mean", !.ins = << g.at >>, !.shape = << Shape(g)[1], Shape(g)[4] >>])
Linear(g, path, n, init, bias) ==
  LET x == Shape(g)
  IN  Biased(Param(Push(g, [Node0 EXCEPT !.op = "linear", !.ins = << g.at >>, !.path = path, !.shape = << x[1], n >>]),
                   path, "w", << x[2], n >>, init), path, n, bias)

(***************************************************************************)
(* Residual networks                                                        *)
(***************************************************************************)
One == << 1, 1 >>
(* The convolutions of a block: kernel, stride and channels. *)
Plan(ch, s, bottle) ==
  IF bottle THEN << << 1, One, ch \div 4 >>, << 3, s, ch \div 4 >>, << 1, One, ch >> >>
  ELSE << << 3, s, ch >>, << 3, One, ch >> >>
Sub(path, name, i) == path \o "/~/" \o name \o Str(i)

RECURSIVE V1Layers(_, _, _, _, _)
V1Layers(g, path, plan, i, bottle) ==
  IF i > Len(plan) THEN g
  ELSE LET a == Conv(g, Sub(path, "conv_", i - 1), plan[i][3], plan[i][1], plan[i][2], "SAME", FALSE)
           b == Norm(a, Sub(path, "batchnorm_", i - 1), IF bottle /\ i = 3 THEN "zeros" ELSE "ones")
       IN  V1Layers(IF i < Len(plan) THEN Relu(b) ELSE b, path, plan, i + 1, bottle)
V1(g, path, ch, s, proj, bottle) ==
  LET short == IF proj
               THEN Norm(Conv(g, path \o "/~/shortcut_conv", ch, 1, s, "SAME", FALSE),
                         path \o "/~/shortcut_batchnorm", "ones")
               ELSE g
      main == V1Layers([short EXCEPT !.at = g.at], path, Plan(ch, s, bottle), 1, bottle)
  IN  Relu(Add(main, main.at, short.at))

(* In the second version the shortcut branches off after the first activation. *)
RECURSIVE V2Layers(_, _, _, _)
V2Layers(g, path, plan, i) ==
  IF i > Len(plan) THEN g
  ELSE LET a == Relu(Norm(g, Sub(path, "batchnorm_", i - 1), "ones"))
       IN  V2Layers(Conv(a, Sub(path, "conv_", i - 1), plan[i][3], plan[i][1], plan[i][2], "SAME", FALSE),
                    path, plan, i + 1)
V2(g, path, ch, s, proj, bottle) ==
  LET plan == Plan(ch, s, bottle)
      act == Relu(Norm(g, Sub(path, "batchnorm_", 0), "ones"))
      short == IF proj THEN Conv(act, path \o "/~/shortcut_conv", ch, 1, s, "SAME", FALSE) ELSE [act EXCEPT !.at = g.at]
      first == Conv([short EXCEPT !.at = act.at], Sub(path, "conv_", 0), plan[1][3], plan[1][1], plan[1][2], "SAME", FALSE)
      main == V2Layers(first, path, plan, 2)
  IN  Add(main, main.at, short.at)
Block(g, path, ch, s, proj, bottle, v2) ==
  IF v2 THEN V2(g, path, ch, s, proj, bottle) ELSE V1(g, path, ch, s, proj, bottle)

RECURSIVE Blocks(_, _, _, _, _, _, _, _, _)
Blocks(g, path, ch, i, n, s, proj, bottle, v2) ==
  IF i = n THEN g
  ELSE Blocks(Block(g, Sub(path, "block_", i), ch, IF i = 0 THEN s ELSE One, i = 0 /\ proj, bottle, v2),
              path, ch, i + 1, n, s, proj, bottle, v2)
RECURSIVE Groups(_, _)
Groups(g, i) ==
  IF i > 4 THEN g
  ELSE Groups(Blocks(g, Sub(C.path, "block_group_", i - 1), C.channels[i], 0, C.blocks[i],
                     IF i = 1 THEN One ELSE << 2, 2 >>, C.proj[i], C.bottle, C.v2), i + 1)
ResNet ==
  LET a == Conv(Start(C.shape), C.path \o "/~/initial_conv", 64, 7, << 2, 2 >>, "SAME", FALSE)
      b == IF C.v2 THEN a ELSE Relu(Norm(a, C.path \o "/~/initial_batchnorm", "ones"))
      c == Slide(b, "maxpool", "", 3, << 2, 2 >>, "SAME", 64)
      d == Groups(c, 1)
      e == IF C.v2 THEN Relu(Norm(d, C.path \o "/~/final_batchnorm", "ones")) ELSE d
  IN  Linear(Mean(e), C.path \o "/~/" \o C.logits, C.classes, C.winit, C.bias)

(***************************************************************************)
(* MobileNet.  Its modules are made when called, so names are numbered.     *)
(***************************************************************************)
Numbered(path, n) == IF n = 0 THEN path ELSE path \o "_" \o Str(n)
BnRelu(g, path) == Relu(IF C.bn THEN Norm(g, path, "ones") ELSE g)
MBlock(g, path, ch, s) ==
  LET a == Depthwise(g, path \o "/depthwise_conv", 3, << s, s >>, "ONE", ~C.bn)
      b == BnRelu(a, path \o "/batch_norm")
      c == Conv(b, path \o "/pointwise_conv", ch, 1, One, "VALID", ~C.bn)
  IN  BnRelu(c, path \o "/batch_norm_1")
RECURSIVE MBlocks(_, _)
MBlocks(g, i) ==
  IF i > Len(C.channels) THEN g
  ELSE MBlocks(MBlock(g, Numbered(C.path \o "/mobile_net_v1_block", i - 1), C.channels[i], C.strides[i]), i + 1)
MobileNet ==
  LET a == BnRelu(Conv(Start(C.shape), C.path \o "/conv2_d", 32, 3, << 2, 2 >>, "VALID", ~C.bn), C.path \o "/batch_norm")
  IN  Linear(Mean(MBlocks(a, 1)), C.path \o "/logits", C.classes, "draw", TRUE)

Graph ==
  CASE C.kind = "resnet" -> ResNet
    [] C.kind = "mobile" -> MobileNet
    [] C.kind = "group" -> Blocks(Start(C.shape), C.path, C.channel, 0, C.num, C.stride, C.usep, C.bottle, C.v2)
    [] OTHER -> Block(Start(C.shape), C.path, C.channel, C.stride, C.usep, C.bottle, C.v2)

(***************************************************************************)
(* Histories                                                                *)
(***************************************************************************)
(* A shortcut without projection needs inputs of the output's shape. *)
Fits(g) == \A i \in 1..Len(g.nodes) :
             g.nodes[i].op = "add" => g.nodes[g.nodes[i].ins[1]].shape = g.nodes[g.nodes[i].ins[2]].shape
Calls == IF C.check = "shapes" THEN 1 ELSE MaxCalls
Init == cid \in 1..Len(Cases) /\ hist = Nil /\ done = FALSE
(* The first call is the one the network is initialized with. *)
Call(mode) == /\ ~done /\ Len(hist) < Calls
              /\ (mode = "local" => C.kind # "mobile")
              /\ (C.check = "shapes" => mode = "train")
              /\ hist' = Append(hist, mode)
              /\ UNCHANGED << cid, done >>
Emit == /\ ~done /\ Len(hist) = Calls
        /\ done' = TRUE
        /\ LET g == Graph
           IN  PrintT("OUT " \o ToJson([cid |-> cid, modes |-> hist, fits |-> Fits(g), nodes |-> g.nodes,
                                        params |-> g.params]))
        /\ UNCHANGED << cid, hist >>
Next == Emit \/ \E mode \in {"train", "eval", "local"} : Call(mode)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties, of each case once                                            *)
(***************************************************************************)
Once == hist = Nil
WellFormed ==
  Once => LET g == Graph
          IN  \A i \in 1..Len(g.nodes) : \A j \in 1..Len(g.nodes[i].ins) : g.nodes[i].ins[j] < i
(* Everything computed is used, but for the result. *)
AllUsed ==
  Once => LET g == Graph
              used == UNION { { g.nodes[i].ins[j] : j \in 1..Len(g.nodes[i].ins) } : i \in 1..Len(g.nodes) }
          IN  1..Len(g.nodes) \ used = { g.at }
OneOwner ==
  Once => LET g == Graph
              owned == { i \in 1..Len(g.nodes) : g.nodes[i].path # "" }
          IN  /\ Cardinality({ g.nodes[i].path : i \in owned }) = Cardinality(owned)
              /\ { g.nodes[i].path : i \in owned } = { g.params[k].path : k \in 1..Len(g.params) }
              /\ Cardinality({ << g.params[k].path, g.params[k].name >> : k \in 1..Len(g.params) }) = Len(g.params)
(* The number of layers with weights on the longest way through, which gives the
   networks their names, and the number of parameters of the published ones. *)
Weighted(n) == n.op \in {"conv", "depthwise", "linear"}
RECURSIVE Depths(_, _)
Depths(g, ds) ==
  IF Len(ds) = Len(g.nodes) THEN ds
  ELSE LET n == g.nodes[Len(ds) + 1]
           up == IF Len(n.ins) = 0 THEN 0 ELSE IF Len(n.ins) = 1 THEN ds[n.ins[1]] ELSE Max(ds[n.ins[1]], ds[n.ins[2]])
       IN  Depths(g, TLCEval(Append(ds, up + (IF Weighted(n) THEN 1 ELSE 0))))
DepthLaw ==
  (Once /\ C.depth > 0) => LET g == Graph IN Depths(g, Nil)[g.at] = C.depth
CountLaw ==
  (Once /\ C.count > 0) => LET g == Graph IN Sum(Len(g.params), LAMBDA k : Prod(g.params[k].shape)) = C.count
=============================================================================
