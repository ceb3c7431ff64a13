------------------------------- MODULE HkNorm -------------------------------
(***************************************************************************)
(* Layer, instance and group normalization.  A case fixes the module and a  *)
(* sequence of calls; each transition makes one.  An output element is      *)
(* << x, n, sum, sum of squares, scale, offset >> over its group of n       *)
(* elements, standing for (x - mean) / sqrt(variance + eps) * scale +       *)
(* offset.                                                                  *)
(***************************************************************************)
EXTENDS HkTensor, Json

CONSTANTS CaseFile
Cases == JsonDeserialize(CaseFile)
VARIABLES cid, rank, hist
vars == << cid, rank, hist >>
C == Cases[cid]
Nil == << >>

(* Axes: a sequence, or a slice with open ends (99). *)
Clamp(a, n) == IF a > n THEN n ELSE IF a < -n THEN 0 ELSE Axis(a, n)
SliceAxes(lo, hi, n) == { a \in 0..(n - 1) : (lo = 99 \/ a >= Clamp(lo, n)) /\ (hi = 99 \/ a < Clamp(hi, n)) }
First == C.first
Channel(n) == IF C.kind = "layer" THEN n - 1 ELSE IF First THEN 1 ELSE n - 1
Axes(n) == IF C.kind = "instance" THEN 1..(n - 1) \ {Channel(n)}
           ELSE IF C.slice # Nil THEN SliceAxes(C.slice[1], C.slice[2], n) ELSE AxisSet(C.axis, n)
BadAxes(n) == C.kind # "instance" /\ C.slice = Nil /\ \E k \in 1..Len(C.axis) : C.axis[k] >= n \/ C.axis[k] < -n
(* Elements with equal keys share their statistics. *)
Key(s, ix) ==
  LET n == Len(s)
  IN  [a \in 1..n |-> IF a - 1 \notin Axes(n) THEN ix[a]
                      ELSE IF C.kind = "group" /\ a - 1 = Channel(n) THEN ix[a] \div (s[a] \div C.groups)
                      ELSE 0]
Keys(t) == TLCEval([p \in 1..Len(t.d) |-> Key(t.s, Index(t.s, p))])
Members(ks, p) == SelectSeq([q \in 1..Len(ks) |-> q], LAMBDA q : ks[q] = ks[p])

(* Value of a broadcast tensor at an index of the larger one. *)
BAt(t, ix) == LET d == Len(ix) - Len(t.s)
              IN  At(t, [a \in 1..Len(t.s) |-> IF t.s[a] = 1 THEN 0 ELSE ix[a + d]])
Factor(create, own, arg, dflt, ix) ==
  IF create THEN own[ix[Channel(Len(ix)) + 1] + 1] ELSE IF Len(arg) = 0 THEN dflt ELSE BAt(arg[1], ix)
Out(call) ==
  LET t == call.x
      ks == Keys(t)
      gs == TLCEval([p \in 1..Len(t.d) |-> Members(ks, p)])
  IN  TLCEval([p \in 1..Len(t.d) |->
        LET g == gs[p]
            ix == Index(t.s, p)
        IN  << t.d[p], Len(g), Sum(Len(g), LAMBDA k : t.d[g[k]]), Sum(Len(g), LAMBDA k : t.d[g[k]] * t.d[g[k]]),
               Factor(C.cs, C.scale, call.scale, 1, ix), Factor(C.co, C.offset, call.offset, 0, ix) >>])
Fails(call) ==
  LET n == Ndim(call.x)
  IN  \/ (C.cs /\ Len(call.scale) > 0) \/ (C.co /\ Len(call.offset) > 0)
      \/ BadAxes(n)
      \/ (C.kind = "group" /\ ((rank # 0 /\ n # rank) \/ call.x.s[Channel(n) + 1] % C.groups # 0))

Init == cid \in 1..Len(Cases) /\ rank = 0 /\ hist = Nil
Over == IF Len(hist) = Len(C.calls) THEN TRUE ELSE IF hist = Nil THEN FALSE ELSE ~hist[Len(hist)].ok
Do == /\ ~Over
      /\ LET call == C.calls[Len(hist) + 1]
             ok == ~Fails(call)
         IN  /\ hist' = Append(hist, [ok |-> ok, out |-> IF ok THEN Out(call) ELSE Nil])
             /\ rank' = IF rank = 0 /\ ok THEN Ndim(call.x) ELSE rank
      /\ UNCHANGED cid
Emit == /\ Over /\ rank < 100
        /\ PrintT("OUT " \o ToJson([cid |-> cid, hist |-> hist]))
        /\ rank' = 100 /\ UNCHANGED << cid, hist >>
Next == Do \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Laws                                                                     *)
(***************************************************************************)
Now == hist # Nil /\ hist[Len(hist)].ok /\ rank < 100
Call == C.calls[Len(hist)]
LastOut == hist[Len(hist)].out
(* Elements share their statistics exactly if they differ only in the given *)
(* axes, and stay within their channel group.                               *)
Same(s, ix, jx) ==
  \A a \in 0..(Len(s) - 1) :
    \/ ix[a + 1] = jx[a + 1]
    \/ /\ a \in Axes(Len(s))
       /\ (C.kind = "group" /\ a = Channel(Len(s))) =>
            LET size == s[a + 1] \div C.groups IN ix[a + 1] \div size = jx[a + 1] \div size
Partition ==
  Now => LET ks == Keys(Call.x)
         IN  \A p, q \in 1..Len(LastOut) :
               /\ ks[p] = ks[q] => SubSeq(LastOut[p], 2, 4) = SubSeq(LastOut[q], 2, 4)
               /\ ks[p] = ks[q] <=> Same(Call.x.s, Index(Call.x.s, p), Index(Call.x.s, q))
(* No variance is negative. *)
Variance == Now => \A p \in 1..Len(LastOut) : LastOut[p][2] * LastOut[p][4] >= LastOut[p][3] * LastOut[p][3]
(* Other examples have no influence unless the batch axis is listed. *)
OwnExample ==
  (Now /\ Ndim(Call.x) > 0) =>
    LET t == Call.x
        other == [t EXCEPT !.d = [p \in 1..Len(t.d) |-> IF Index(t.s, p)[1] = 0 THEN t.d[p] ELSE 5 - t.d[p]]]
        alt == Out([Call EXCEPT !.x = other])
    IN  (0 \notin Axes(Ndim(t))) => \A p \in 1..Len(t.d) : Index(t.s, p)[1] = 0 => alt[p] = LastOut[p]
(* Shifting all inputs changes no output. *)
ShiftLaw ==
  Now => LET t == Call.x
             alt == Out([Call EXCEPT !.x = [t EXCEPT !.d = [p \in 1..Len(t.d) |-> t.d[p] + 1]]])
         IN  \A p \in 1..Len(t.d) :
               LET a == alt[p]
                   b == LastOut[p]
               IN  /\ a[1] * a[2] - a[3] = b[1] * b[2] - b[3]
                   /\ a[2] * a[4] - a[3] * a[3] = b[2] * b[4] - b[3] * b[3]
=============================================================================
