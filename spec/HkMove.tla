------------------------------- MODULE HkMove -------------------------------
(***************************************************************************)
(* Reshaping, flattening, batch application and axis expansion as moves of  *)
(* a tensor's elements.  TLC explores chains of operations on a tensor.     *)
(***************************************************************************)
EXTENDS HkTensor, Json, Randomization

CONSTANTS Shapes, Depth, Sample, MaxDims, What
VARIABLES t, hist
vars == << t, hist >>
Nil == << >>
AllShapes == << << 6 >>, << 2, 3 >>, << 3, 2, 2 >>, << 1, 4 >>, << 2, 1, 3, 2 >>, << 4 >>, << 2, 0, 3 >>, Nil, << 2, 2, 3, 1, 2 >>, << 5, 1 >> >>
Size == Prod(t.s)

(* Functions applied to batches x = [rows, rest]: a row at a time. *)
Row1(ix) == ix[1]
Rows(x) == [x EXCEPT !.d = TLCEval([p \in 1..Len(x.d) |-> x.d[p] + 100 * Index(x.s, p)[1]])]
RowSums(x) == Tensor(<< x.s[1] >>, LAMBDA ix :
                LET m == Prod(Tail(x.s)) IN Sum(m, LAMBDA q : x.d[ix[1] * m + q]))
Plus(x, k) == [x EXCEPT !.d = TLCEval([p \in 1..Len(x.d) |-> x.d[p] + k])]
Flat(x) == [x EXCEPT !.s = << x.s[1], Prod(Tail(x.s)) >>]

(* f of the merged tensor; low: the sum of an argument of lower rank. *)
Batched(f, x, low) ==
  CASE f = "rows" -> Rows(x)
    [] f = "sums" -> RowSums(x)
    [] f = "flat" -> Flat(x)
    [] f = "low" -> Plus(x, 10 * low)
    [] OTHER -> x
Merge(x, k) == [x EXCEPT !.s = << Prod(SubSeq(x.s, 1, k)) >> \o SubSeq(x.s, k + 1, Len(x.s))]
Split(x, lead) == [x EXCEPT !.s = lead \o Tail(x.s)]
BatchApply(f, x, k, low) == Split(Batched(f, Merge(x, k), low), SubSeq(x.s, 1, k))

Expanded(x, ax) == [x EXCEPT !.s = IF ax = 0 THEN << 1 >> \o x.s ELSE Append(x.s, 1)]
Squeezed(x, ax) == [x EXCEPT !.s = IF ax = 0 THEN Tail(x.s) ELSE SubSeq(x.s, 1, Len(x.s) - 1)]
Inner(g, x, low) == CASE g = "rank" -> Plus(x, 100 * Len(x.s))
                      [] g = "low" -> Plus(x, 10 * low)
                      [] OTHER -> x
ExpandApply(g, x, ax, low) == Squeezed(Inner(g, Expanded(x, ax), low), ax)

(* Output shapes with at most one wildcard (-1). *)
RECURSIVE Factors(_, _)
Factors(n, m) == IF m = 0 THEN (IF n = 1 THEN {Nil} ELSE {})
                 ELSE UNION { { << f >> \o r : r \in Factors(n \div f, m - 1) } : f \in { f \in 1..n : n % f = 0 } }
Shaped(n) == LET full == UNION { Factors(n, m) : m \in 0..MaxDims }
             IN  full \cup { [r EXCEPT ![i] = -1] : r \in { r \in full : Len(r) > 0 }, i \in 1..MaxDims }
ShapedOk(n) == { r \in Shaped(n) : \A i \in 1..MaxDims : i <= Len(r) => r[i] # 0 }
Fill(n, r) == LET m == Prod([i \in 1..Len(r) |-> IF r[i] = -1 THEN 1 ELSE r[i]])
              IN  [i \in 1..Len(r) |-> IF r[i] = -1 THEN n \div m ELSE r[i]]
Reshape(x, out, p) ==
  IF Len(x.s) <= p THEN x
  ELSE [x EXCEPT !.s = SubSeq(x.s, 1, p) \o Fill(Prod(SubSeq(x.s, p + 1, Len(x.s))), out)]

Inner0(x, p) == Prod(SubSeq(x.s, p + 1, Len(x.s)))
Op(k, f, n, low, out) == [k |-> k, f |-> f, n |-> n, low |-> low, out |-> out]
Ops ==
  UNION { { Op("reshape", "", p, 0, o) : o \in (IF Inner0(t, p) = 0 THEN {<< -1 >>, << 0, 2 >>} ELSE ShapedOk(Inner0(t, p))) } :
            p \in { p \in 1..4 : p <= Len(t.s) } }
  \cup { Op("flatten", "", p, 0, Nil) : p \in 1..3 }
  \cup { Op("batch", f, k, l, Nil) : f \in {"rows", "sums", "low", "same"} \cup (IF Size = 0 THEN {} ELSE {"flat"}), k \in { k \in 1..4 : k <= Len(t.s) }, l \in {0, 3} }
  \cup { Op("expand", g, ax, l, Nil) : g \in {"rank", "low", "same"}, ax \in {0, -1}, l \in {0, 3} }
Apply(o) == CASE o.k = "reshape" -> Reshape(t, o.out, o.n)
              [] o.k = "flatten" -> Reshape(t, << -1 >>, o.n)
              [] o.k = "batch" -> BatchApply(o.f, t, o.n, o.low)
              [] OTHER -> ExpandApply(o.f, t, o.n, o.low)
Mine == { o \in Ops : o.k \in What /\ (o.f # "low" => o.low = 0) /\ (o.f = "low" => o.low # 0) }
Some == IF Sample = 0 THEN Mine ELSE RandomSubset(Sample, Mine)

Init == /\ \E i \in Shapes : t = [s |-> AllShapes[i], d |-> [p \in 1..Prod(AllShapes[i]) |-> p]]
        /\ hist = Nil
Do == /\ Len(hist) < Depth
      /\ \E o \in Some : LET r == TLCEval(Apply(o))
                         IN  /\ Len(r.s) <= 6 /\ t' = r
                             /\ hist' = Append(hist, [op |-> o, before |-> t, after |-> r])
Emit == /\ Len(hist) = Depth /\ PrintT("OUT " \o ToJson([hist |-> hist]))
        /\ hist' = Append(hist, [op |-> "emitted"]) /\ UNCHANGED t
Next == Do \/ Emit
Spec == Init /\ [][Next]_vars

(* A tensor is what its shape says; reshaping moves nothing. *)
WellFormed == Len(t.d) = Prod(t.s)
Last == hist[Len(hist)]
Live == hist # Nil /\ Len(hist) <= Depth
OrderKept == (Live /\ Last.op.k \in {"reshape", "flatten"}) =>
               /\ Last.after.d = Last.before.d
               /\ \A a \in 1..Last.op.n : a <= Len(Last.before.s) => Last.after.s[a] = Last.before.s[a]
(* Batch application is the function applied to each row: row r of the      *)
(* merged tensor alone, except for what the function makes of its number.   *)
Rowwise ==
  (Live /\ Last.op.k = "batch" /\ Last.op.f \in {"sums", "low", "same"}) =>
    LET m == Merge(Last.before, Last.op.n)
        w == Prod(Tail(m.s))
        z == Merge(Last.after, Last.op.n)
        v == Prod(Tail(z.s))
    IN  \A r \in 0..(m.s[1] - 1) :
          LET row == [s |-> << 1 >> \o Tail(m.s), d |-> SubSeq(m.d, r * w + 1, (r + 1) * w)]
          IN  Batched(Last.op.f, row, Last.op.low).d = SubSeq(z.d, r * v + 1, (r + 1) * v)
ExpandKeepsShape == (Live /\ Last.op.k = "expand") => Last.after.s = Last.before.s
=============================================================================
