------------------------------ MODULE HkFilter ------------------------------
(***************************************************************************)
(* filter, partition, map, merge and the size functions over a pool of two- *)
(* level structures.  A structure is a function from paths <<module, name>> *)
(* to values; values are strings, so mapped values show how they were made. *)
(* Dictionaries the user built can be changed at any time and outputs must  *)
(* not follow.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Slots, Depth, Ops,
          Paths,    \* how many of AllPaths are used
          Vals,     \* base values
          MaxNew,   \* structures built per behaviour
          Sample    \* 0: every structure, else so many random ones at each step

VARIABLES pool, hist
vars == << pool, hist >>

Nil == << >>
None == [t |-> "none"]
Str(f) == [t |-> "st", f |-> f]
AllPaths == << << "a", "w" >>, << "b", "w" >>, << "a", "b" >>, << "a/~/b", "w" >>, << "b", "a" >> >>
Path == { AllPaths[i] : i \in 1..Paths }

Structures == UNION { [D -> Vals] : D \in SUBSET Path }

Some == IF Sample = 0 THEN Structures ELSE RandomSubset(Sample, Structures)

(* Predicates of (module, name, value). *)
Preds == {"all", "none", "mod", "name", "val", "mix", "notname"}
Holds(p, x, v) == CASE p = "all" -> TRUE
                    [] p = "none" -> FALSE
                    [] p = "mod" -> x[1] = "a"
                    [] p = "name" -> x[2] = "w"
                    [] p = "notname" -> x[2] # "w"
                    [] p = "val" -> v = "1"
                    [] OTHER -> (x[1] = "b") = (v = "1")
Filter(p, f) == [x \in { y \in DOMAIN f : Holds(p, y, f[y]) } |-> f[x]]
Reject(p, f) == [x \in { y \in DOMAIN f : ~Holds(p, y, f[y]) } |-> f[x]]
MapF(i, f) == [x \in DOMAIN f |-> i \o "(" \o x[1] \o "," \o x[2] \o "," \o f[x] \o ")"]
RECURSIVE Merge(_)
Merge(fs) == IF Len(fs) = 0 THEN [x \in {} |-> ""]
             ELSE LET h == Merge(SubSeq(fs, 1, Len(fs) - 1))
                      l == fs[Len(fs)]
                  IN  [x \in DOMAIN h \cup DOMAIN l |-> IF x \in DOMAIN l THEN l[x] ELSE h[x]]

(* Sizes of base values: elements and bytes. "0" is no array at all. *)
Size(v) == CASE v = "1" -> 1 [] v = "2" -> 6 [] v = "3" -> 0 [] v = "4" -> 7 [] OTHER -> 0
Bytes(v) == CASE v = "1" -> 4 [] v = "2" -> 12 [] v = "3" -> 0 [] v = "4" -> 10 [] OTHER -> 0
RECURSIVE Sum(_, _, _)
Sum(op, f, d) == IF d = {} THEN 0
                 ELSE LET x == CHOOSE y \in d : TRUE
                      IN  (IF op = "size" THEN Size(f[x]) ELSE Bytes(f[x])) + Sum(op, f, d \ {x})

Is(s) == pool[s].t = "st"
F(s) == pool[s].f
Show(f) == { << x[1], x[2], f[x] >> : x \in DOMAIN f }
See(p) == [s \in DOMAIN p |-> IF p[s].t = "st" THEN Show(p[s].f) ELSE {<<"none">>}]
Done(op, p) == /\ pool' = p
               /\ hist' = Append(hist, [op |-> op, see |-> See(p)])
Can(k) == Len(hist) < Depth /\ k \in Ops
Forms == {"dict", "imm", "mixed"}

(* A user's own structure; dict and mixed forms can be changed later. *)
News == Len(SelectSeq(hist, LAMBDA h : h.op.k = "new"))
Build == Can("new") /\ News < MaxNew /\ \E s \in Slots, f \in Some, how \in Forms :
  (Sample = 0 => s = News + 1) /\
  Done([k |-> "new", s |-> s, v |-> Show(f), how |-> how],
       [pool EXCEPT ![s] = [t |-> "st", f |-> f, free |-> how = "dict"]])
Result(f) == [t |-> "st", f |-> f, free |-> FALSE]
DoFilter == Can("filter") /\ \E s, t \in Slots, p \in Preds : Is(t) /\
  Done([k |-> "filter", s |-> s, f |-> t, p |-> p], [pool EXCEPT ![s] = Result(Filter(p, F(t)))])
DoPartition == Can("partition") /\ \E s, u, t \in Slots, p \in Preds : s # u /\ Is(t) /\
  Done([k |-> "partition", s |-> s, u |-> u, f |-> t, p |-> p],
       [pool EXCEPT ![s] = Result(Filter(p, F(t))), ![u] = Result(Reject(p, F(t)))])
DoMap == Can("map") /\ \E s, t \in Slots : Is(t) /\
  Done([k |-> "map", s |-> s, f |-> t, i |-> "f"], [pool EXCEPT ![s] = Result(MapF("f", F(t)))])
DoMerge == Can("merge") /\ \E s \in Slots, n \in 0..3 : \E ts \in [1..n -> Slots] :
  (\A i \in 1..n : Is(ts[i])) /\
  Done([k |-> "merge", s |-> s, fs |-> ts],
       [pool EXCEPT ![s] = Result(Merge([i \in 1..n |-> F(ts[i])]))])
Poke == Can("poke") /\ \E s \in Slots, x \in Path, v \in Vals : Is(s) /\ pool[s].free /\
  Done([k |-> "poke", s |-> s, x |-> x, v |-> v],
       [pool EXCEPT ![s].f = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN v ELSE @[y]]])
Remove == Can("poke") /\ \E s \in Slots, x \in Path : Is(s) /\ pool[s].free /\ x \in DOMAIN F(s) /\
  Done([k |-> "remove", s |-> s, x |-> x],
       [pool EXCEPT ![s].f = [y \in DOMAIN @ \ {x} |-> @[y]]])
Measure == Can("size") /\ \E s \in Slots : Is(s) /\ (\A x \in DOMAIN F(s) : F(s)[x] \in Vals) /\
  /\ pool' = pool
  /\ hist' = Append(hist, [op |-> [k |-> "size", s |-> s,
                                   size |-> Sum("size", F(s), DOMAIN F(s)),
                                   bytes |-> Sum("bytes", F(s), DOMAIN F(s))], see |-> See(pool)])

Init == pool = [s \in Slots |-> None] /\ hist = Nil
Emit == /\ Len(hist) = Depth
        /\ PrintT("OUT " \o ToJson([hist |-> hist]))
        /\ hist' = Append(hist, [op |-> [k |-> "emitted"]]) /\ UNCHANGED pool
Next == Build \/ DoFilter \/ DoPartition \/ DoMap \/ DoMerge \/ Poke \/ Remove \/ Measure \/ Emit
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The algebra, checked on every structure in the pool.                     *)
(***************************************************************************)
Laws == \A s \in Slots : Is(s) =>
  LET f == F(s) IN
  /\ \A p \in Preds :
       /\ DOMAIN Filter(p, f) \cap DOMAIN Reject(p, f) = {}
       /\ Merge(<< Filter(p, f), Reject(p, f) >>) = f
       /\ Merge(<< Reject(p, f), Filter(p, f) >>) = f
       /\ Filter(p, Filter(p, f)) = Filter(p, f)
  /\ DOMAIN MapF("f", f) = DOMAIN f
  /\ Merge(<< f, f >>) = f /\ Merge(<< >>) = [x \in {} |-> ""]
  /\ \A t \in Slots : Is(t) =>
       LET m == Merge(<< F(t), f >>)
       IN  \A x \in DOMAIN m : m[x] = IF x \in DOMAIN f THEN f[x] ELSE F(t)[x]
=============================================================================
