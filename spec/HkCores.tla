------------------------------- MODULE HkCores -------------------------------
(***************************************************************************)
(* The gates of recurrent cores.  Each step is specified by the             *)
(* pre-activations of its gates - exact linear forms of the inputs and the  *)
(* previous hidden state - and by terms for the new state over them.        *)
(*                                                                          *)
(* Mode "gates" drives all gates into saturation, where cells are integers, *)
(* and explores every sequence of open and closed gates.  Mode "cases"      *)
(* reads cores, weights (in quarters) and inputs from a file.               *)
(***************************************************************************)
EXTENDS HkTensor, Json

CONSTANTS Mode, CaseFile, Depth, Kind

VARIABLES cid, st, hist, over
vars == << cid, st, hist, over >>
Nil == << >>
Cases == IF Mode = "cases" THEN JsonDeserialize(CaseFile) ELSE << >>
C == Cases[cid]

(***************************************************************************)
(* Saturated gates.  A pattern gives each gate -1 (closed, or a cell update *)
(* of -1) or 1.                                                             *)
(***************************************************************************)
Bit(v) == IF v = 1 THEN 1 ELSE 0
Patterns == IF Kind = "lstm" THEN [{"i", "f", "g", "o"} -> {-1, 1}]
            ELSE IF Kind = "gru" THEN [{"z", "r", "a"} -> {-1, 1}]
            ELSE [{"x"} -> -2..2]
Sign(v) == IF v < 0 THEN -1 ELSE 1
Saturated(s, p) ==
  CASE Kind = "lstm" ->
         LET c == Bit(p["f"]) * s.c + Bit(p["i"]) * p["g"]
         IN  [c |-> c, open |-> Bit(p["o"]), h |-> 0]      \* h = open * tanh(c)
    [] Kind = "gru" ->
         (* the candidate leans to the reset hidden state where there is one *)
         LET rh == Bit(p["r"]) * s.h
             a == IF rh = 0 THEN p["a"] ELSE Sign(rh)
         IN  [c |-> 0, open |-> 1, h |-> IF p["z"] = 1 THEN a ELSE s.h]
    [] OTHER ->
         LET v == 2 * p["x"] - s.h + 1
         IN  [c |-> 0, open |-> 1, h |-> IF v < 0 THEN 0 ELSE v]
GateStart == { [c |-> c, open |-> 0, h |-> IF Kind = "lstm" THEN 0 ELSE c] : c \in -2..2 }

(***************************************************************************)
(* Linear forms.  Units of the new state are numbered in row-major order.   *)
(***************************************************************************)
Conv == C.kind = "conv"
Batched == C.batch > 0
B == IF Batched THEN C.batch ELSE 1
H == C.hidden
Space == C.space               \* spatial shape; << >> for the others
Area == Prod(Space)
Units == B * Area * H
(* Unit = (row, position, channel), counted from 0. *)
Row(u) == (u - 1) \div (Area * H)
Place(u) == ((u - 1) \div H) % Area
Chan(u) == (u - 1) % H
(* Reach of the kernel around a place: << kernel index, input place >>. *)
Reach(p) ==
  LET ix == Index(Space, p + 1)
      Src(k) == LET kx == Index(C.kernel, k)
                IN  [a \in 1..Len(Space) |-> ix[a] + kx[a] - ((C.kernel[a] - 1) \div 2)]
      ks == SelectSeq([k \in 1..Prod(C.kernel) |-> k],
                      LAMBDA k : \A a \in 1..Len(Space) : Src(k)[a] >= 0 /\ Src(k)[a] < Space[a])
  IN  TLCEval([z \in 1..Len(ks) |-> << ks[z] - 1, Pos(Space, Src(ks[z])) - 1 >>])
(* Weight of input (or hidden) channel q for column j, at kernel index k. *)
W(w, k, q, j) == w.d[(k * w.n + q) * w.m + j + 1]
XAt(t, row, place, q) == C.xs[t][(row * Area + place) * C.inputs + q + 1]
FromX(t, w, u, j) ==
  LET r == Reach(Place(u))
  IN  Sum(Len(r) * C.inputs, LAMBDA z : LET e == r[((z - 1) \div C.inputs) + 1]
                                            q == (z - 1) % C.inputs
                                        IN  W(w, e[1], q, j) * XAt(t, Row(u), e[2], q))
FromH(w, u, j) ==
  LET r == Reach(Place(u))
  IN  TLCEval([z \in 1..(Len(r) * H) |->
        LET e == r[((z - 1) \div H) + 1]
            q == (z - 1) % H
        IN  << W(w, e[1], q, j), (Row(u) * Area + e[2]) * H + q + 1 >>])
Form(t, wx, wh, bias, u, j) ==
  [k |-> FromX(t, wx, u, j) + ISum([z \in 1..Len(bias) |-> bias[z][j + 1]]), t |-> FromH(wh, u, j)]
Gates == CASE C.kind = "vanilla" -> << "x" >> [] C.kind = "gru" -> << "z", "r", "a" >> [] OTHER -> << "i", "g", "f", "o" >>
(* Gate number n of unit u uses column (n - 1) * H + channel. *)
Forms(t) == TLCEval([n \in 1..Len(Gates) |-> [u \in 1..Units |->
              Form(t, C.wx, C.wh, C.bias, u, (n - 1) * H + Chan(u))]])
(* Terms of the new state; "c" and "h" are the previous ones, "h1" and "c1" the new. *)
Sig(a) == << "sigmoid", a >>
Terms ==
  CASE C.kind = "vanilla" -> << << "h1", << "relu", "x" >> >> >>
    [] C.kind = "gru" -> << << "h1", << "add", << "mul", << "not", Sig("z") >>, "h" >>, << "mul", Sig("z"), << "tanh", "a" >> >> >> >> >>
    [] OTHER -> << << "c1", << "add", << "mul", Sig(<< "inc", "f" >>), "c" >>, << "mul", Sig("i"), << "tanh", "g" >> >> >> >>,
                   << "h1", << "mul", Sig("o"), << "tanh", "c1" >> >> >> >>
(* What the hidden state's forms are over: the candidate sees a reset one. *)
Over == [n \in 1..Len(Gates) |-> IF Gates[n] = "a" THEN << "mul", Sig("r"), "h" >> ELSE << "h" >>]

(***************************************************************************)
Init == /\ hist = Nil /\ over = FALSE
        /\ IF Mode = "cases" THEN cid \in 1..Len(Cases) /\ st = Nil
           ELSE cid = 0 /\ st \in GateStart
DoGate == /\ Mode = "gates" /\ Len(hist) < Depth
          /\ \E p \in Patterns :
             LET n == Saturated(st, p)
             IN  /\ hist' = Append(hist, [p |-> p, was |-> st, st |-> n])
                 /\ st' = n
          /\ UNCHANGED << cid, over >>
DoStep == /\ Mode = "cases" /\ Len(hist) < Len(C.xs)
          /\ hist' = Append(hist, Forms(Len(hist) + 1))
          /\ UNCHANGED << cid, st, over >>
Done == Len(hist) = IF Mode = "cases" THEN Len(C.xs) ELSE Depth
Emit == /\ Done /\ ~over
        /\ PrintT("OUT " \o ToJson(IF Mode = "gates" THEN [cid |-> 0, hist |-> hist]
                                   ELSE [cid |-> cid, gates |-> Gates, forms |-> hist, terms |-> Terms, over |-> Over]))
        /\ over' = TRUE /\ UNCHANGED << cid, st, hist >>
Next == DoGate \/ DoStep \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
(* Rows do not mix. *)
RowsApart ==
  (Mode = "cases" /\ hist # Nil) =>
    LET f == hist[Len(hist)]
    IN  \A n \in 1..Len(f), u \in 1..Units : \A z \in 1..Len(f[n][u].t) : Row(f[n][u].t[z][2]) = Row(u)
(* Every column of the weights feeds exactly one gate of one channel. *)
ColumnsOnce ==
  (Mode = "cases" /\ hist = Nil) =>
    /\ C.wx.m = Len(Gates) * H /\ C.wh.m = Len(Gates) * H
    /\ { << n, ch >> : n \in 1..Len(Gates), ch \in 0..(H - 1) } # {}
    /\ Cardinality({ (n - 1) * H + ch : n \in 1..Len(Gates), ch \in 0..(H - 1) }) = C.wx.m
(* Closed gates keep, open ones replace. *)
GateLaws ==
  (Mode = "gates" /\ hist # Nil) =>
    LET e == hist[Len(hist)]
    IN  CASE Kind = "lstm" ->
               /\ (e.p["f"] = 1 /\ e.p["i"] = -1) => e.st.c = e.was.c
               /\ (e.p["f"] = -1 /\ e.p["i"] = 1) => e.st.c = e.p["g"]
               /\ (e.p["f"] = -1 /\ e.p["i"] = -1) => e.st.c = 0
          [] Kind = "gru" -> (e.p["z"] = -1 => e.st.h = e.was.h) /\ (e.p["z"] = 1 => e.st.h \in {-1, 1})
          [] OTHER -> e.st.h >= 0
(* A cell moves by at most one per step: it counts. *)
Counts == (Mode = "gates" /\ Kind = "lstm" /\ hist # Nil) =>
            LET e == hist[Len(hist)] IN e.st.c <= e.was.c + 1 \/ e.p["f"] = -1
=============================================================================
