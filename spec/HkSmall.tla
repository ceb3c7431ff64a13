------------------------------ MODULE HkSmall ------------------------------
(***************************************************************************)
(* Every session of a small scope: all programs of at most Size statements  *)
(* from a menu, under each of the given schedules of calls.                 *)
(*                                                                          *)
(* Menu items are [blocks, empty, pre, mid, post]: operations before and    *)
(* after a body (blocks = 0: a plain statement, all in pre); with mid the   *)
(* body is there twice, around it.  An operation that opens a bracket has   *)
(* blk, the number of its "end"s (branches).  The configuration replaces   *)
(* HkSession's Cases by the sessions of every Parts-th program, starting    *)
(* with the Part-th (the parts are explored in parallel).                  *)
(***************************************************************************)
EXTENDS HkSession

CONSTANTS MenuFile, Part, Parts
Input == JsonDeserialize(MenuFile)
Menu  == Input.menu
Size  == Input.size

(* Bodies are sequences of tokens: an item's index opens it, 0 closes the last
   open block. *)
Plain == {i \in 1..Len(Menu) : Menu[i].blocks = 0}
Blocks == 1..Len(Menu) \ Plain
Bodies[n \in 0..Size] ==      \* all bodies of n statements
  IF n = 0 THEN {Nil}
  ELSE UNION {
    LET one == IF k = 1 THEN {<< i >> : i \in Plain} \cup {<< i, 0 >> : i \in {j \in Blocks : Menu[j].empty}}
               ELSE {<< i >> \o b \o << 0 >> : i \in Blocks, b \in Bodies[k - 1]}
    IN  {s \o b : s \in one, b \in Bodies[n - k]} : k \in 1..n}
Programs == UNION {Bodies[n] : n \in 1..Size}

(* The operations of a program.  open: sequence of [item, start of its body]. *)
Expand(toks) ==
  FoldLeft(LAMBDA a, t :
             IF t = 0 THEN
               LET o == Top(a.open)
                   it == Menu[o.item]
                   body == SubSeq(a.ops, o.start, Len(a.ops))
               IN  [open |-> Pop(a.open),
                    ops |-> a.ops \o (IF Len(it.mid) > 0 THEN it.mid \o body ELSE Nil) \o it.post]
             ELSE LET ops == a.ops \o Menu[t].pre
                  IN  [open |-> IF t \in Blocks THEN Append(a.open, [item |-> t, start |-> Len(ops) + 1]) ELSE a.open,
                       ops |-> ops],
           [open |-> Nil, ops |-> Nil], toks).ops

(* Matches brackets.  open: sequence of [at, left]. *)
Link(ops) ==
  FoldLeft(LAMBDA a, i :
             LET op == a.ops[i]
                 o == Top(a.open)
                 q == [a.ops EXCEPT ![i] = [k |-> "end", beg |-> o.at]]
             IN  IF op.k = "end" THEN
                   IF o.left = 1 THEN [open |-> Pop(a.open), ops |-> [q EXCEPT ![o.at] = [end |-> i] @@ @]]
                   ELSE [open |-> SetTop(a.open, [o EXCEPT !.left = @ - 1]),
                         ops |-> [q EXCEPT ![o.at].starts = Append(@, i + 1)]]
                 ELSE IF op.blk > 0 THEN
                   [open |-> Append(a.open, [at |-> i, left |-> op.blk]),
                    ops |-> [a.ops EXCEPT ![i] = [starts |-> << i + 1 >>] @@ @]]
                 ELSE a,
           [open |-> Nil, ops |-> ops], [i \in 1..Len(ops) |-> i]).ops

Chosen == TLCEval(LET all == SetToSeq(Programs)
                  IN  SelectSeq([j \in 1..Len(all) |-> IF j % Parts = Part THEN all[j] ELSE Nil], LAMBDA x : x # Nil))
SmallCases == TLCEval([j \in 1..(Len(Chosen) * Len(Input.scheds)) |->
  LET n == Len(Input.scheds)
  IN  [progs |-> << Link(Expand(Chosen[((j - 1) \div n) + 1])) >>,
       calls |-> Input.scheds[((j - 1) % n) + 1]]])

(* Computed once: HkSession's Cases. *)
ASSUME TLCSet(1, SmallCases)
Stored == TLCGet(1)

ASSUME \A j \in 1..Len(Cases) : PrintT("OUT " \o ToJson([at |-> j, case |-> Cases[j]]))
ASSUME PrintT("OUT " \o ToJson([total |-> Cardinality(Programs)]))
=============================================================================
