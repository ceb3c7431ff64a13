------------------------------ MODULE HkLayers ------------------------------
(***************************************************************************)
(* Linear, bias, embedding, sequential, MLP and attention layers on small   *)
(* integers.  A case gives a pipeline of layers; each transition applies    *)
(* the next one, so that TLC's states are the activations.                  *)
(***************************************************************************)
EXTENDS HkTensor, Json

CONSTANTS CaseFile
Cases == JsonDeserialize(CaseFile)
VARIABLES cid, i, x, hist
vars == << cid, i, x, hist >>
C == Cases[cid]
Nil == << >>
Butlast(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Map(t, F(_)) == [t EXCEPT !.d = TLCEval([p \in 1..Len(t.d) |-> F(t.d[p])])]

(* w: weights << in, out >>; b: bias, or none. *)
Linear(t, w, b) ==
  LET n == w.s[1]
  IN  Tensor(Butlast(t.s) \o << w.s[2] >>,
        LAMBDA ix : LET r == Butlast(ix)
                        j == Last(ix)
                    IN  Sum(n, LAMBDA q : At(t, r \o << q - 1 >>) * At(w, << q - 1, j >>))
                        + (IF b = Nil THEN 0 ELSE b[j + 1]))
Act(f, t) == Map(t, LAMBDA v : CASE f = "relu" -> IF v < 0 THEN 0 ELSE v
                                 [] f = "neg" -> -v
                                 [] f = "inc" -> v + 1
                                 [] OTHER -> v)
RECURSIVE MLP(_, _, _, _)
(* ls = sequence of [w, b]; the activation follows all but the last. *)
MLP(t, ls, f, final) ==
  IF Len(ls) = 0 THEN t
  ELSE LET y == Linear(t, ls[1].w, ls[1].b)
       IN  MLP(IF Len(ls) > 1 \/ final THEN Act(f, y) ELSE y, Tail(ls), f, final)

(* The shape of a bias: the kept dimensions, 1 for the others, without the  *)
(* leading 1s.  dims = << "all" >>, or a sequence of possibly negative axes. *)
BiasShape(s, all, dims) ==
  LET n == Len(s)
      kept == { Axis(dims[k], n) : k \in 1..Len(dims) }
      full == [a \in 1..n |-> IF (a - 1) \in kept THEN s[a] ELSE 1]
      RECURSIVE Strip(_)
      Strip(a) == IF a > n THEN Nil ELSE IF full[a] # 1 THEN SubSeq(full, a, n) ELSE Strip(a + 1)
  IN  IF all THEN Tail(s) ELSE Strip(2)
BiasFails(s, all, dims) == ~all /\ \E k \in 1..Len(dims) : Axis(dims[k], Len(s)) = 0 \/ Axis(dims[k], Len(s)) >= Len(s)
(* Value of a broadcast tensor at an index of the larger one. *)
BAt(t, ix) == LET d == Len(ix) - Len(t.s)
              IN  At(t, [a \in 1..Len(t.s) |-> IF t.s[a] = 1 THEN 0 ELSE ix[a + d]])
Bias(t, b, m) == Tensor(t.s, LAMBDA ix : At(t, ix) + BAt(b, ix) * BAt(m, ix))

Embed(t, w) == Tensor(t.s \o << w.s[2] >>, LAMBDA ix : At(w, << At(t, Butlast(ix)), Last(ix) >>))

(***************************************************************************)
(* Attention.  Projections are linear with heads side by side; the result   *)
(* is described for each query position by its heads: the logits of the     *)
(* positions it may attend to (times sqrt of the key size), their values.   *)
(***************************************************************************)
Piece(t, h, n, d) == t[h * n + d + 1]
RowOf(t, b, p) == LET n == Last(t.s) IN [k \in 1..n |-> At(t, << b, p, k - 1 >>)]
Attention(q, k, v, a, mask) ==
  LET Q == Linear(q, a.wq, a.bq)
      K == Linear(k, a.wk, a.bk)
      V == Linear(v, a.wv, a.bv)
      n == a.wk.s[2] \div a.heads
      m == a.wv.s[2] \div a.heads
      Open(b, h, p) == SelectSeq([j \in 1..k.s[2] |-> j - 1],
                                 LAMBDA j : a.free \/ BAt(mask, << b, h, p, j >>) = 1)
      Logit(b, h, p, j) == LET x1 == RowOf(Q, b, p)
                               x2 == RowOf(K, b, j)
                           IN  Sum(n, LAMBDA d : Piece(x1, h, n, d - 1) * Piece(x2, h, n, d - 1))
      Value(b, h, j) == LET x1 == RowOf(V, b, j) IN [d \in 1..m |-> Piece(x1, h, m, d - 1)]
  IN  TLCEval([b \in 1..q.s[1] |-> [p \in 1..q.s[2] |-> [h \in 1..a.heads |->
        LET js == Open(b - 1, h - 1, p - 1)
        IN  [l |-> [z \in 1..Len(js) |-> Logit(b - 1, h - 1, p - 1, js[z])],
             v |-> [z \in 1..Len(js) |-> Value(b - 1, h - 1, js[z])]]]]])

(***************************************************************************)
(* One layer: [ok, y, shape of its bias].                                   *)
(***************************************************************************)
None == [s |-> Nil, d |-> Nil]
Good(y) == [ok |-> TRUE, y |-> y, bs |-> Nil, att |-> Nil]
Bad == [ok |-> FALSE, y |-> None, bs |-> Nil, att |-> Nil]
Layer(l, t) ==
  CASE l.k = "linear" -> IF Len(t.s) = 0 THEN Bad ELSE Good(Linear(t, l.ls[1].w, l.ls[1].b))
    [] l.k = "act" -> Good(Act(l.f, t))
    [] l.k = "args" -> Good(Map(t, LAMBDA v : 2 * v + l.n - 3))
    [] l.k = "mlp" -> Good(MLP(t, l.ls, l.f, l.final))
    [] l.k = "bias" ->
         IF Len(t.s) < 2 \/ BiasFails(t.s, l.all, l.dims) \/ (l.sized # Nil /\ l.sized # Tail(t.s)) THEN Bad
         ELSE LET s == BiasShape(t.s, l.all, l.dims)
                  b == [s |-> s, d |-> SubSeq(l.b, 1, Prod(s))]
              IN  [Good(Bias(t, b, l.m)) EXCEPT !.bs = s]
    [] l.k = "embed" -> Good(Embed(t, l.ls[1].w))
    [] OTHER -> [Good(None) EXCEPT !.att = Attention(t, l.kx, l.vx, l, l.mask)]

Init == /\ cid \in 1..Len(Cases) /\ i = 1 /\ hist = Nil
        /\ x = C.x
Over == IF i > Len(C.layers) THEN TRUE ELSE IF i = 1 THEN FALSE ELSE ~hist[i - 1].ok
Do == /\ i <= Len(C.layers) /\ ~Over
      /\ LET r == Layer(C.layers[i], x)
         IN  x' = r.y /\ hist' = Append(hist, r)
      /\ i' = i + 1 /\ UNCHANGED cid
Emit == /\ i < 100 /\ Over
        /\ PrintT("OUT " \o ToJson([cid |-> cid, hist |-> hist]))
        /\ i' = 100 /\ UNCHANGED << cid, x, hist >>
Next == Do \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Laws                                                                     *)
(***************************************************************************)
Here == i <= Len(C.layers)
L == C.layers[i]
(* Linear layers are linear: doubling the input, without the bias. *)
LinearLaw ==
  (Here /\ L.k = "linear" /\ Len(x.s) > 0) =>
    LET w == L.ls[1].w
        y == Linear(x, w, Nil)
    IN  Linear(Map(x, LAMBDA v : 2 * v), w, Nil) = Map(y, LAMBDA v : 2 * v)
(* An embedding is a linear layer on one-hot codes. *)
OneHot(t, n) == Tensor(t.s \o << n >>, LAMBDA ix : IF At(t, Butlast(ix)) = Last(ix) THEN 1 ELSE 0)
EmbedLaw == (Here /\ L.k = "embed") => Linear(OneHot(x, L.ls[1].w.s[1]), L.ls[1].w, Nil) = Embed(x, L.ls[1].w)
(* Adding a bias and taking it away again gives the input back. *)
BiasLaw ==
  (Here /\ L.k = "bias" /\ Layer(L, x).ok) =>
    LET s == BiasShape(x.s, L.all, L.dims)
        b == [s |-> s, d |-> SubSeq(L.b, 1, Prod(s))]
        one == [s |-> Nil, d |-> << 1 >>]
    IN  Bias(Bias(x, b, one), b, Map(one, LAMBDA v : -v)) = x
(* Masked positions have no influence. *)
MaskLaw ==
  (Here /\ L.k = "attention" /\ ~L.free) =>
    LET shut == { j \in 0..(L.kx.s[2] - 1) : \A b \in 0..(x.s[1] - 1), h \in 0..(L.heads - 1), p \in 0..(x.s[2] - 1) :
                    BAt(L.mask, << b, h, p, j >>) = 0 }
        Spoil(t) == Tensor(t.s, LAMBDA ix : IF ix[2] \in shut THEN 9 ELSE At(t, ix))
    IN  Attention(x, Spoil(L.kx), Spoil(L.vx), L, L.mask) = Attention(x, L.kx, L.vx, L, L.mask)
=============================================================================
