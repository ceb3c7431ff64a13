------------------------------- MODULE HkDot -------------------------------
(***************************************************************************)
(* Drawing a function as a graph (to_dot, abstract_to_dot).  A program is   *)
(* a sequence of statements: operations on registers, reading parameters,   *)
(* making modules, entering and leaving module methods, and possibly        *)
(* failing.  The drawing has one cluster for every method call (also of     *)
(* constructors), nested as the calls nest; one node for every operation, in the cluster   *)
(* of the call that executes it; and one edge for every operand, from the   *)
(* node of what produced it: an operation, a copy of the argument, or a     *)
(* captured value.  Nodes whose results are returned carry their place in   *)
(* the result.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Raises, Free
VARIABLES
  mode,      \* "apply": the transformed function is drawn; "inside": drawn inside it
  result,    \* how the results are packed: "one", "pair", "dict"
  regs,      \* values: [id, shape, label, kind]
  stack,     \* what is open: [kind, mod, method, cl]
  mods,      \* module names
  clusters, nodes, hist, outcome
vars == << mode, result, regs, stack, mods, clusters, nodes, hist, outcome >>

Names == << "a", "step", "c", "d", "e", "f", "g", "h" >>
Shapes == {"", "3"}
TypeOf(s) == "f32[" \o s \o "]"
Arg(id, shape, path) == [id |-> id, shape |-> shape, kind |-> "arg", label |-> path]
Start(m) == LET x == IF m = "apply" THEN "args[2]" ELSE "args[0]"
                y == IF m = "apply" THEN "args[3]" ELSE "args[1]"
            IN  << Arg("x", "3", x), Arg("y", "", y \o ": k/0"), Arg("z", "3", y \o ": m"),
                   [id |-> "s", shape |-> "", kind |-> "capture", label |-> "2.5"],
                   [id |-> "t", shape |-> "3", kind |-> "capture", label |-> "f32[3]"] >>
Open == stack[Len(stack)]
Cluster == Open.cl
InModule == Open.kind = "method"
Steps == Len(hist) < Depth /\ outcome = ""

Init == /\ mode \in {"apply", "inside"}
        /\ result \in {"one", "pair", "dict"}
        /\ regs = Start(mode)
        /\ stack = << [kind |-> "top", mod |-> "", method |-> "", cl |-> 0] >>
        /\ mods = << >> /\ clusters = << >> /\ nodes = << >> /\ hist = << >> /\ outcome = ""

Say(h) == hist' = Append(hist, h)
(* What touches only captured values is computed outside the drawing: not specified. *)
Draw(prim, ins, outs) ==       \* outs: shapes
  LET n == Len(nodes) + 1
  IN  /\ \E k \in 1..Len(ins) : regs[ins[k]].kind # "capture"
      /\ nodes' = Append(nodes, [cl |-> Cluster, prim |-> prim, ins |-> ins, outs |-> outs])
      /\ regs' = regs \o [i \in 1..Len(outs) |->
                            [id |-> "n" \o ToString(n) \o "." \o ToString(i), shape |-> outs[i], kind |-> "op", label |-> ToString(n)]]
      /\ Say([op |-> prim, regs |-> ins])
      /\ UNCHANGED << mode, result, stack, mods, clusters, outcome >>

(* Menus stay small in exhaustive runs: the newest register, or the first three and the captures. *)
Near(i) == Free \/ i = Len(regs) \/ i <= 5
Unary == /\ Steps
         /\ \E p \in {"neg", "sin"}, i \in 1..Len(regs) : Near(i) /\ Draw(p, << i >>, << regs[i].shape >>)
Binary == /\ Steps
          /\ \E p \in {"add", "mul"}, i \in 1..Len(regs), j \in 1..Len(regs) :
               /\ regs[i].shape = regs[j].shape
               /\ Near(i) /\ Near(j)
               /\ Free \/ p = "add"
               /\ Draw(p, << i, j >>, << regs[i].shape >>)
Broadcast == /\ Steps
             /\ \E i \in 1..Len(regs) : regs[i].shape = "" /\ Draw("broadcast_in_dim", << i >>, << "3" >>)
Sort == /\ Steps
        /\ \E i \in 1..Len(regs), j \in 1..Len(regs) :
             /\ regs[i].shape = "3" /\ regs[j].shape = "3" /\ i # j
             /\ Free \/ i > 5 \/ j > 5 \/ (i = 1 /\ j = 3)
             /\ Draw("sort", << i, j >>, << "3", "3" >>)

(* The running module reads its parameter. *)
Param == /\ Steps /\ InModule
         /\ LET m == mods[Open.mod]
                l == IF mode = "apply" THEN "args[0]: " \o m \o "/w" ELSE "f32[3]"
            IN  regs' = Append(regs, [id |-> "p:" \o m, shape |-> "3", kind |-> IF mode = "apply" THEN "arg" ELSE "capture", label |-> l])
         /\ Say([op |-> "param"])
         /\ UNCHANGED << mode, result, stack, mods, clusters, nodes, outcome >>

Path == IF ~InModule THEN ""
        ELSE mods[Open.mod] \o (IF Open.method = "__call__" THEN "/" ELSE "/~" \o Open.method \o "/")
New == /\ Steps /\ Len(mods) < Len(Names)
       /\ LET name == Names[Len(mods) + 1]
          IN  /\ mods' = Append(mods, Path \o name)
              /\ clusters' = Append(clusters, [parent |-> Cluster, title |-> Path \o name \o " (__init__)"])
              /\ Say([op |-> "new", name |-> name])
       /\ UNCHANGED << mode, result, regs, stack, nodes, outcome >>

Enter(e, title) ==
  /\ stack' = Append(stack, [e EXCEPT !.cl = Len(clusters) + 1])
  /\ clusters' = Append(clusters, [parent |-> Cluster, title |-> title])
Call == /\ Steps
        /\ \E m \in 1..Len(mods), f \in {"__call__", "step"} :
             /\ Enter([kind |-> "method", mod |-> m, method |-> f, cl |-> 0],
                      mods[m] \o (IF f = "__call__" THEN "" ELSE " (" \o f \o ")"))
             /\ Say([op |-> "call", mod |-> m, method |-> f])
        /\ UNCHANGED << mode, result, regs, mods, nodes, outcome >>
Leave == /\ Steps /\ Len(stack) > 1
         /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ Say([op |-> "leave"])
         /\ UNCHANGED << mode, result, regs, mods, clusters, nodes, outcome >>
Raise == /\ Steps /\ Raises /\ Len(hist) >= Depth \div 2
         /\ outcome' = "raise"
         /\ Say([op |-> "raise"])
         /\ UNCHANGED << mode, result, regs, stack, mods, clusters, nodes >>

(* What is returned: the last registers. *)
Count == IF result = "one" THEN 1 ELSE 2
Returned == { i \in 1..Len(regs) : i > Len(regs) - Count }
PlaceOf(i) == LET k == Len(regs) - i      \* 0 for the last
              IN  CASE result = "one" -> "output"
                    [] result = "pair" -> IF k = 0 THEN "output[0]" ELSE "output[1]: q/0"
                    [] OTHER -> IF k = 0 THEN "output: p" ELSE "output: q/0"
Places == [n \in 1..Len(nodes) |-> { PlaceOf(i) : i \in { j \in Returned : regs[j].kind = "op" /\ regs[j].label = ToString(n) } }]
Edges == [n \in 1..Len(nodes) |->
            [k \in 1..Len(nodes[n].ins) |->
               LET r == regs[nodes[n].ins[k]]
               IN  [kind |-> r.kind, id |-> r.id, label |-> r.label, type |-> TypeOf(r.shape)]]]
Done == /\ outcome = ""
        /\ Len(hist) = Depth
        /\ outcome' = "return"
        /\ UNCHANGED << mode, result, regs, stack, mods, clusters, nodes, hist >>
Emit == /\ outcome \in {"return", "raise"}
        /\ PrintT("OUT " \o ToJson([mode |-> mode, result |-> result, hist |-> hist, outcome |-> outcome, clusters |-> clusters,
                                    places |-> Places, edges |-> Edges, mods |-> mods,
                                    nodes |-> [n \in 1..Len(nodes) |->
                                                 [cl |-> nodes[n].cl, prim |-> nodes[n].prim,
                                                  types |-> [i \in 1..Len(nodes[n].outs) |-> TypeOf(nodes[n].outs[i])]]]]))
        /\ outcome' = "over"
        /\ UNCHANGED << mode, result, regs, stack, mods, clusters, nodes, hist >>
Next == Unary \/ Binary \/ Broadcast \/ Sort \/ Param \/ New \/ Call \/ Leave \/ Raise \/ Done \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
(* The drawing of every prefix is complete, closed and acyclic. *)
DrawnOnce ==
  /\ Len(nodes) = Cardinality({ i \in 1..Len(hist) : hist[i].op \in {"neg", "sin", "add", "mul", "broadcast_in_dim", "sort"} })
  /\ Len(clusters) = Cardinality({ i \in 1..Len(hist) : hist[i].op \in {"new", "call"} })
Nested == /\ \A c \in 1..Len(clusters) : clusters[c].parent < c
          /\ \A n \in 1..Len(nodes) : nodes[n].cl <= Len(clusters)
          /\ \A i \in 2..Len(stack) : stack[i].cl = stack[i - 1].cl \/ clusters[stack[i].cl].parent = stack[i - 1].cl
Acyclic == \A n \in 1..Len(nodes) : \A k \in 1..Len(nodes[n].ins) :
             LET r == regs[nodes[n].ins[k]] IN r.kind = "op" => \E m \in 1..(n - 1) : r.label = ToString(m)
Closed == \A r \in 1..Len(regs) : regs[r].kind = "op" => \E n \in 1..Len(nodes) : regs[r].label = ToString(n)
=============================================================================
