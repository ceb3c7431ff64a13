----------------------------- MODULE HkMapping -----------------------------
(***************************************************************************)
(* Parameter mappings: a user's variables (slots) hold mutable dictionaries *)
(* (references into a heap, so aliasing is explicit) or immutable mappings  *)
(* (values).  Every operation appends to hist what it was and what the user *)
(* must then see in every slot.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Slots,   \* the user's variables, 1..n
          Depth,   \* operations per behaviour
          Vals,    \* leaf values
          Lits,    \* which literals (indices)
          Ops      \* operation kinds in play

VARIABLES slot, heap, hist
vars == << slot, heap, hist >>

(***************************************************************************)
(* Values: [t: "leaf", v], [t: "map", m: key -> value] (immutable) and, in  *)
(* the heap only, [t: "ref", r].                                            *)
(***************************************************************************)
Nil == << >>
Leaf(n) == [t |-> "leaf", v |-> n]
Map(f) == [t |-> "map", m |-> f]
Ref(r) == [t |-> "ref", r |-> r]
None == [t |-> "none"]
Keys == {"w", "b", "a/b"}
Empty == [k \in {} |-> 0]
(* Literals: leaf -1 stands for None. *)
Literal(i) ==
  CASE i = 1 -> Map(Empty)
    [] i = 2 -> Map("w" :> Leaf(1))
    [] i = 3 -> Map("w" :> Leaf(1) @@ "b" :> Leaf(2))
    [] i = 4 -> Map("a/b" :> Map("w" :> Leaf(1)))
    [] i = 5 -> Map("b" :> Map("w" :> Leaf(1) @@ "b" :> Leaf(2)) @@ "a/b" :> Map("w" :> Leaf(3)))
    [] i = 6 -> Map("w" :> Leaf(-1) @@ "b" :> Map(Empty))
    [] i = 7 -> Map("w" :> Map("b" :> Map("w" :> Leaf(4))) @@ "b" :> Leaf(2))
    [] OTHER -> Map("a/b" :> Map("w" :> Leaf(-1) @@ "b" :> Leaf(5)) @@ "w" :> Leaf(6))

(* The value a slot's content denotes now. *)
RECURSIVE Val(_, _)
Val(x, h) ==
  CASE x.t = "ref" -> Map([k \in DOMAIN h[x.r] |-> Val(h[x.r][k], h)])
    [] x.t = "map" -> Map([k \in DOMAIN x.m |-> Val(x.m[k], h)])
    [] OTHER -> x
(* Allocates a fresh mutable copy of a value, nested mappings included. *)
RECURSIVE Alloc(_, _)
RECURSIVE AllocKeys(_, _, _, _)
Alloc(v, h) ==   \* returns [x, h]
  IF v.t # "map" THEN [x |-> v, h |-> h]
  ELSE LET a == AllocKeys(v.m, DOMAIN v.m, Empty, h)
           h2 == Append(a.h, a.x)
       IN  [x |-> Ref(Len(h2)), h |-> h2]
AllocKeys(m, ks, acc, h) ==
  IF ks = {} THEN [x |-> acc, h |-> h]
  ELSE LET k == CHOOSE y \in ks : TRUE
           a == Alloc(m[k], h)
       IN  AllocKeys(m, ks \ {k}, (k :> a.x) @@ acc, a.h)
RECURSIVE Add10(_)
Add10(v) == CASE v.t = "leaf" -> IF v.v = -1 THEN v ELSE Leaf(v.v + 10)
              [] v.t = "map" -> Map([k \in DOMAIN v.m |-> Add10(v.m[k])])
              [] OTHER -> v
(* Maps the leaves of a dictionary: a new dictionary, mappings inside stay mappings. *)
RECURSIVE MapDict(_, _)
RECURSIVE MapKeys(_, _, _, _)
MapDict(x, h) ==
  IF x.t # "ref" THEN [x |-> Add10(x), h |-> h]
  ELSE LET a == MapKeys(h[x.r], DOMAIN h[x.r], Empty, h)
           h2 == Append(a.h, a.x)
       IN  [x |-> Ref(Len(h2)), h |-> h2]
MapKeys(m, ks, acc, h) ==
  IF ks = {} THEN [x |-> acc, h |-> h]
  ELSE LET k == CHOOSE y \in ks : TRUE
           a == MapDict(m[k], h)
       IN  MapKeys(m, ks \ {k}, (k :> a.x) @@ acc, a.h)
RECURSIVE Leaves(_)
Leaves(v) == CASE v.t = "leaf" -> IF v.v = -1 THEN 0 ELSE 1
               [] v.t = "map" -> LET RECURSIVE S(_)
                                     S(ks) == IF ks = {} THEN 0
                                              ELSE LET k == CHOOSE y \in ks : TRUE
                                                   IN Leaves(v.m[k]) + S(ks \ {k})
                                 IN S(DOMAIN v.m)
               [] OTHER -> 0

Imm(s) == slot[s].t = "map"
Mut(s) == slot[s].t = "ref"
Dict(s) == heap[slot[s].r]
V(s) == Val(slot[s], heap)

(***************************************************************************)
(* What is seen.                                                            *)
(***************************************************************************)
RECURSIVE Show(_)
Show(v) == CASE v.t = "leaf" -> << "L", v.v >>
             [] v.t = "map" -> << "M", { << k, Show(v.m[k]) >> : k \in DOMAIN v.m } >>
             [] OTHER -> << "N" >>
See(sl, h) == [s \in DOMAIN sl |->
                 << IF sl[s].t = "ref" THEN "dict" ELSE IF sl[s].t = "map" THEN "imm" ELSE "none",
                    Show(Val(sl[s], h)) >>]
Done(op, r, sl, h) ==
  /\ slot' = sl /\ heap' = h
  /\ hist' = Append(hist, [op |-> op, r |-> r, see |-> See(sl, h)])

Can(k) == Len(hist) < Depth /\ k \in Ops

(***************************************************************************)
(* Operations                                                               *)
(***************************************************************************)
NewDict == Can("new") /\ \E s \in Slots, i \in Lits :
  LET a == Alloc(Literal(i), heap)
  IN  Done([k |-> "new", s |-> s, v |-> Show(Literal(i))], "ok", [slot EXCEPT ![s] = a.x], a.h)

(* Value-preserving conversions; `how` is the route. *)
ToImm == Can("imm") /\ \E s, t \in Slots : (Mut(t) \/ Imm(t)) /\
  Done([k |-> "imm", s |-> s, f |-> t], "ok", [slot EXCEPT ![s] = V(t)], heap)
(* Building one directly, from a dictionary without dictionaries inside. *)
Direct == Can("flat") /\ \E s, t \in Slots, how \in {"dict", "items"} :
  /\ Mut(t) /\ \A k \in DOMAIN Dict(t) : Dict(t)[k].t # "ref"
  /\ Done([k |-> "flat", s |-> s, f |-> t, how |-> how], "ok", [slot EXCEPT ![s] = V(t)], heap)
ToMut == Can("mut") /\ \E s, t \in Slots : Imm(t) /\
  LET a == Alloc(V(t), heap)
  IN  Done([k |-> "mut", s |-> s, f |-> t], "ok", [slot EXCEPT ![s] = a.x], a.h)
RoundTrip == Can("trip") /\ \E s, t \in Slots, how \in {"pickle", "deepcopy", "unflatten", "rebuild", "treemap"} :
  Imm(t) /\ Done([k |-> how, s |-> s, f |-> t], "ok", [slot EXCEPT ![s] = V(t)], heap)
(* Leaves replaced by trees and back. *)
Retree == Can("retree") /\ \E s, t \in Slots, how \in {"list", "tuple", "dict", "imm"} : Imm(t) /\
  Done([k |-> "retree", s |-> s, f |-> t, how |-> how], "ok", [slot EXCEPT ![s] = V(t)], heap)
TreeMap == Can("map") /\ \E s, t \in Slots : (Imm(t) \/ Mut(t)) /\
  IF Imm(t) THEN Done([k |-> "map", s |-> s, f |-> t], "ok", [slot EXCEPT ![s] = Add10(V(t))], heap)
  ELSE LET a == MapDict(slot[t], heap)
       IN  Done([k |-> "map", s |-> s, f |-> t], "ok", [slot EXCEPT ![s] = a.x], a.h)
SubMap == Can("sub") /\ \E s, t \in Slots, k \in Keys, how \in {"item", "attr", "get"} :
  /\ Imm(t) \/ (Mut(t) /\ how = "item")
  /\ LET x == IF Imm(t) THEN slot[t].m ELSE Dict(t)
     IN  k \in DOMAIN x /\ x[k].t # "leaf" /\
         Done([k |-> "sub", s |-> s, f |-> t, key |-> k, how |-> how], "ok", [slot EXCEPT ![s] = x[k]], heap)
(* Changing: works on dictionaries, fails without effect on mappings. *)
SetLeaf == Can("set") /\ \E s \in Slots, k \in Keys, n \in Vals :
  \/ Mut(s) /\ Done([k |-> "set", s |-> s, key |-> k, n |-> n], "ok", slot,
                    [heap EXCEPT ![slot[s].r] = (k :> Leaf(n)) @@ @])
  \/ Imm(s) /\ Done([k |-> "set", s |-> s, key |-> k, n |-> n], "error", slot, heap)
DelKey == Can("del") /\ \E s \in Slots, k \in Keys :
  \/ Mut(s) /\ k \in DOMAIN Dict(s)
     /\ Done([k |-> "del", s |-> s, key |-> k], "ok", slot,
             [heap EXCEPT ![slot[s].r] = [y \in DOMAIN @ \ {k} |-> @[y]]])
  \/ Imm(s) /\ Done([k |-> "del", s |-> s, key |-> k], "error", slot, heap)
ForceSet == Can("force") /\ \E s \in Slots, how \in {"update", "pop", "clear", "setdefault", "setattr", "ior"} :
  Imm(s) /\ Done([k |-> "force", s |-> s, how |-> how],
                 IF how = "ior" THEN "any" ELSE "error", slot, heap)
SetNested == Can("setin") /\ \E s \in Slots, k1, k2 \in Keys, n \in Vals :
  LET x == IF Imm(s) THEN slot[s].m ELSE IF Mut(s) THEN Dict(s) ELSE Empty
  IN  k1 \in DOMAIN x /\ x[k1].t \in {"map", "ref"} /\
      IF x[k1].t = "ref"
      THEN Done([k |-> "setin", s |-> s, key |-> k1, key2 |-> k2, n |-> n], "ok", slot,
                [heap EXCEPT ![x[k1].r] = (k2 :> Leaf(n)) @@ @])
      ELSE Done([k |-> "setin", s |-> s, key |-> k1, key2 |-> k2, n |-> n], "error", slot, heap)
PutMap == Can("put") /\ \E s, t \in Slots, k \in Keys : Mut(s) /\ Imm(t) /\
  Done([k |-> "put", s |-> s, key |-> k, f |-> t], "ok", slot,
       [heap EXCEPT ![slot[s].r] = (k :> slot[t]) @@ @])
(* Questions *)
Equal == Can("eq") /\ \E s, t \in Slots : s # t /\ slot[s].t # "none" /\ slot[t].t # "none" /\
  Done([k |-> "eq", s |-> s, f |-> t], IF V(s) = V(t) THEN "true" ELSE "false", slot, heap)
Hash == Can("hash") /\ \E s, t \in Slots : s # t /\ Imm(s) /\ Imm(t) /\ V(s) = V(t) /\
  Done([k |-> "hash", s |-> s, f |-> t], "same", slot, heap)
CountLeaves == Can("size") /\ \E s \in Slots : Imm(s) /\
  Done([k |-> "size", s |-> s], Leaves(slot[s]), slot, heap)

Init == /\ slot = [s \in Slots |-> None] /\ heap = Nil /\ hist = Nil
Emit == /\ Len(hist) = Depth
        /\ PrintT("OUT " \o ToJson([hist |-> hist]))
        /\ hist' = Append(hist, [op |-> "emitted"]) /\ UNCHANGED << slot, heap >>
Next == NewDict \/ ToImm \/ Direct \/ ToMut \/ RoundTrip \/ Retree \/ TreeMap \/ SubMap \/ SetLeaf \/ DelKey
        \/ ForceSet \/ SetNested \/ PutMap \/ Equal \/ Hash \/ CountLeaves \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties                                                               *)
(***************************************************************************)
(* Nothing reachable from an immutable mapping is mutable. *)
RECURSIVE Frozen(_)
Frozen(v) == v.t # "ref" /\ (v.t = "map" => \A k \in DOMAIN v.m : Frozen(v.m[k]))
ImmutableAllTheWay == \A s \in Slots : Imm(s) => Frozen(slot[s])
(* A mapping stays what it is unless its own variable is assigned. *)
ValuesStay ==
  [][\A s \in Slots : (Imm(s) /\ slot'[s].t # "none" /\ Len(hist') <= Depth
                       /\ Len(hist') > Len(hist)
                       /\ ("f" \notin DOMAIN hist'[Len(hist')].op
                           \/ hist'[Len(hist')].op.s # s)
                       /\ hist'[Len(hist')].op.k # "new") =>
       slot'[s] = slot[s]]_vars
NoDangling == \A r \in 1..Len(heap) : \A k \in DOMAIN heap[r] :
  heap[r][k].t = "ref" => heap[r][k].r < r
=============================================================================
