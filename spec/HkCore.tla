------------------------------- MODULE HkCore -------------------------------
(***************************************************************************)
(* The state machine behind hk.transform: one machine per thread.           *)
(*                                                                          *)
(* A user function is a program: a sequence of operations, blocks being     *)
(* bracketed (every block operation carries `end', the index of its closing *)
(* operation).  The machine executes one operation per step, exactly at the *)
(* public calls of the library: constructing a module, entering a method,   *)
(* asking for a parameter, a state entry or a random key, entering a        *)
(* context, running a part of the function through one of the library's JAX *)
(* wrappers or control flow functions, and so on.                           *)
(*                                                                          *)
(* Values are terms.  "c5" is a constant, "s7" the key of seed 7,           *)
(* "s7/3:1" = split(s7, 3)[1], "h4(t)" and "p(t,u)" uninterpreted           *)
(* functions, "L" the lane of a vmap.  A stored value is [t, n]: a term and *)
(* a shape tag.  The replay driver gives terms concrete values.             *)
(*                                                                          *)
(* This module has no variables: the machine is a record m, and each        *)
(* operation a function of it.  HkSession turns the operations into actions.*)
(***************************************************************************)
EXTENDS HkStrings, Integers, FiniteSets

Nil == << >>
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
SetTop(s, x) == [s EXCEPT ![Len(s)] = x]
Str(x) == ToString(x)
Bar(a, b) == a \o "|" \o b
RECURSIVE JoinBar(_)
JoinBar(s) == IF Len(s) = 1 THEN s[1] ELSE Bar(s[1], JoinBar(Tail(s)))

(***************************************************************************)
(* Terms                                                                    *)
(***************************************************************************)
Const(n)  == "c" \o Str(n)
Fn(id, t) == "h" \o Str(id) \o "(" \o t \o ")"
Pair(t, u) == "p(" \o t \o "," \o u \o ")"
IsConst(t) == Len(t) > 1 /\ Char(t, 1) = "c"
ConstVal(t) == ToNat(SubSeq(t, 2, Len(t)))
Lane(t) == Contains(t, "L")
LaneConst == Const(1000)

(***************************************************************************)
(* Random key sequences.  out and cnt are history: the keys handed out.     *)
(***************************************************************************)
NoRng == [none |-> TRUE, key |-> "", sub |-> Nil, out |-> {}, cnt |-> 0]
RngOf(k) == [none |-> FALSE, key |-> k, sub |-> Nil, out |-> {}, cnt |-> 0]
SplitKey(k, n, i) == k \o "/" \o Str(n) \o ":" \o Str(i)
ReserveKeys(r, n) ==
  IF n <= 0 THEN r
  ELSE [r EXCEPT !.key = SplitKey(r.key, n + 1, 0),
                 !.sub = @ \o [i \in 1..n |-> SplitKey(r.key, n + 1, i)]]
(* The library passes exactly one reserved key in and out of control flow. *)
FullBlock(r) ==
  IF r.none THEN r
  ELSE IF Len(r.sub) = 0 THEN ReserveKeys(r, 1)
  ELSE [r EXCEPT !.sub = SubSeq(@, 1, 1)]
NextKey(r) ==
  LET q == IF Len(r.sub) = 0 THEN ReserveKeys(r, 1) ELSE r
  IN  [q EXCEPT !.sub = Tail(@), !.out = @ \cup {Head(q.sub)}, !.cnt = @ + 1]
KeyOf(r) == LET q == IF Len(r.sub) = 0 THEN ReserveKeys(r, 1) ELSE r IN Head(q.sub)

RngOK(r) ==
  /\ Cardinality(r.out) = r.cnt
  /\ r.key \notin r.out
  /\ \A i \in 1..Len(r.sub) : /\ r.sub[i] \notin r.out
                              /\ r.sub[i] # r.key
                              /\ \A j \in 1..Len(r.sub) : r.sub[i] = r.sub[j] => i = j

(***************************************************************************)
(* Frames and machines                                                      *)
(***************************************************************************)
Frame(params, frozen, state, rng) ==
  [params |-> params, frozen |-> frozen, state |-> state, touched |-> {},
   rngs |-> << rng >>, mstk |-> Nil, cnts |-> << Nil >>, used |-> << {} >>]

(* A copy of the frame whose random sequence is a copy of the current one. *)
Evolve(f) == [f EXCEPT !.rngs = Append(@, Top(@))]
(* What the copy gives back when a block ends. *)
Merge(outer, inner) ==
  [outer EXCEPT !.params = IF outer.frozen THEN @ ELSE inner.params,
                !.state = inner.state, !.touched = inner.touched,
                !.rngs = SetTop(@, Top(inner.rngs))]
(* The structure JAX requires to agree between branches and iterations.  Whether
   a bundle without entries is part of it is not specified. *)
Bundles(f) == f.touched \cup {<< "p", x[1] >> : x \in DOMAIN f.params}
                        \cup {<< "s", x[1] >> : x \in DOMAIN f.state}
Shape(f) ==
  << [x \in DOMAIN f.params |-> f.params[x].n],
     [x \in DOMAIN f.state |-> << f.state[x].i.n, f.state[x].c.n >>] >>

Machine(prog) ==
  [prog |-> prog, pc |-> 1, ctl |-> Nil, frames |-> Nil,
   crp |-> Nil, crs |-> Nil, gtp |-> Nil, gts |-> Nil, icp |-> Nil, cntr |-> Nil,
   objs |-> Nil, slots |-> Nil, buns |-> Nil, seqs |-> Nil, v |-> "c0", r |-> [t |-> "c0", n |-> 2],
   log |-> Nil, exc |-> "", skip |-> FALSE, prof |-> FALSE]

F(m) == Top(m.frames)
SetF(m, f) == [m EXCEPT !.frames = SetTop(@, f)]
Rng(m) == Top(F(m).rngs)
SetRng(m, r) == SetF(m, [F(m) EXCEPT !.rngs = SetTop(@, r)])
PushF(m, f) == [m EXCEPT !.frames = Append(@, f)]
PopF(m) == [m EXCEPT !.frames = Pop(@)]
Raise(m, cls) == [m EXCEPT !.exc = cls]
Failed(m) == m.exc # ""
Log(m, k, s, t) == [m EXCEPT !.log = Append(@, [k |-> k, s |-> s, t |-> t, d |-> {}])]
LogD(m, k, s, d) == [m EXCEPT !.log = Append(@, [k |-> k, s |-> s, t |-> "", d |-> d])]
SetV(m, t) == [m EXCEPT !.v = t]
Goto(m, pc) == [m EXCEPT !.pc = pc]
Step1(m) == [m EXCEPT !.pc = @ + 1]
PushC(m, c) == [m EXCEPT !.ctl = Append(@, c)]
PopC(m) == [m EXCEPT !.ctl = Pop(@)]

(***************************************************************************)
(* Random keys                                                              *)
(***************************************************************************)
(* next_rng_key: counted by every active counter, even if there is no key. *)
DrawKey(m) ==
  LET m1 == [m EXCEPT !.cntr = [i \in 1..Len(@) |-> @[i] + 1]]
  IN  IF Rng(m).none THEN Raise(m1, "ValueError")
      ELSE [SetRng(m1, NextKey(Rng(m))) EXCEPT !.r = [t |-> KeyOf(Rng(m)), n |-> 2]]

RECURSIVE TakeN(_, _, _)
TakeN(r, n, acc) == IF n = 0 THEN << r, acc >>
                    ELSE TakeN(NextKey(r), n - 1, Append(acc, KeyOf(r)))

(***************************************************************************)
(* Names                                                                    *)
(***************************************************************************)
(* Default names of the driver's classes. *)
ClassName(cls) ==
  CASE cls = "Mod" -> "mod"        [] cls = "HTTPServer" -> "http_server"
    [] cls = "Conv2DNet" -> "conv2_d_net" [] cls = "ABc" -> "a_bc"
    [] cls = "Data" -> "data"      [] cls = "Fn" -> "as_fn" [] OTHER -> "mod"

CurObj(m) == IF Len(F(m).mstk) = 0 THEN 0 ELSE Top(F(m).mstk).obj
(* Owner of parameters and state requested now; "" if the running module has
   not run its base constructor yet. *)
Bundle(m) == IF CurObj(m) = 0 THEN "~" ELSE m.objs[CurObj(m)].name

PushMod(m, obj, meth) ==
  SetF(m, [F(m) EXCEPT !.mstk = Append(@, [obj |-> obj, meth |-> meth]),
                       !.cnts = Append(@, Nil), !.used = Append(@, {})])
PopMod(m) ==
  SetF(m, [F(m) EXCEPT !.mstk = Pop(@), !.cnts = Pop(@), !.used = Pop(@)])

(* Give the module under construction (top of mstk) its name. *)
NameModule(m, obj, base) ==
  LET f  == F(m)
      d  == Len(f.mstk)
      ps == f.mstk[d - 1]
      parent == IF d > 1 THEN m.objs[ps.obj].name ELSE ""
      mid == IF ps.meth = "__init__" THEN "~/"
             ELSE IF ps.meth # "__call__" THEN "~" \o ps.meth \o "/" ELSE ""
      full == IF d > 1 THEN parent \o "/" \o mid \o base ELSE base
      expl == ExplicitlyNumbered(full)
      stem == Stem(full)
      l    == Len(f.cnts) - 1
      old  == IF stem \in DOMAIN f.cnts[l] THEN f.cnts[l][stem] ELSE 0
      num  == IF expl THEN Number(full) ELSE old
      new  == IF expl THEN (IF num + 1 > old THEN num + 1 ELSE old) ELSE old + 1
      qual == IF expl \/ num > 0 THEN stem \o "_" \o Str(num) ELSE stem
      m1   == SetF(m, [f EXCEPT !.cnts[l] = (stem :> new) @@ @])
  IN  IF ~ValidIdent(base) THEN Raise(m, "ValueError")
      ELSE IF d > 1 /\ parent = "" THEN Raise(m, "ValueError")
      ELSE IF qual \in f.used[l] THEN Raise(m1, "ValueError")
      ELSE [SetF(m1, [F(m1) EXCEPT !.used[l] = @ \cup {qual}])
              EXCEPT !.objs[obj].name = qual]

(* Tell every module whose method is running that this module ran.  (Using one
   module in the constructor of another before its base constructor ran is
   unspecified.) *)
Notify(m, obj) ==
  LET others == {F(m).mstk[i].obj : i \in 1..Len(F(m).mstk)} \ {obj}
  IN  [m EXCEPT !.skip = @ \/ \E o \in others : m.objs[o].name = "", !.objs = [o \in 1..Len(@) |->
         IF o \in others THEN [@[o] EXCEPT !.subs = @ \cup {m.objs[obj].name}] ELSE @[o]]]

NewObj(m) == [m EXCEPT !.objs = Append(@, [name |-> "", subs |-> {}])]

(***************************************************************************)
(* Method interceptors: outermost first.                                    *)
(* tg = [name, meth, eff, arg]: eff - the driver's interceptors act on it   *)
(* (otherwise they only record and pass on), arg - it has an argument.      *)
(* Result: [m, go, posts].                                                  *)
(***************************************************************************)
RECURSIVE RunIcp(_, _, _, _)
RunIcp(m, i, tg, posts) ==
  IF i > Len(m.icp) THEN [m |-> m, go |-> "call", posts |-> posts]
  ELSE
  LET c  == m.icp[i]
      m1 == Log(m, "ic", JoinBar(<< Str(c.id), tg.name, tg.meth >>),
                IF tg.arg THEN m.v ELSE "")
      nx(mm, ps) == RunIcp(mm, i + 1, tg, ps)
  IN
  IF c.kind = "raise" /\ (tg.eff \/ tg.meth = "__init__")
    THEN [m |-> Raise(m1, "UserError"), go |-> "call", posts |-> posts]
  ELSE IF ~tg.eff \/ c.kind = "pass" THEN nx(m1, posts)
  ELSE IF c.kind = "arg" THEN
    nx(IF tg.arg THEN SetV(m1, Fn(c.id, m1.v)) ELSE m1, posts)
  ELSE IF c.kind = "res" THEN nx(m1, << c.id >> \o posts)
  ELSE IF c.kind = "key" THEN
    LET m2 == DrawKey(m1)
    IN  IF Failed(m2) THEN [m |-> m2, go |-> "call", posts |-> posts]
        ELSE nx(Log(m2, "ick", Str(c.id), m2.r.t), posts)
  ELSE IF c.kind = "short" THEN [m |-> m1, go |-> "call", posts |-> posts]
  ELSE \* skip
    [m |-> SetV(m1, Const(700 + c.id)), go |-> "skip", posts |-> posts]

RECURSIVE RunPosts(_, _)
RunPosts(m, posts) ==
  IF Len(posts) = 0 THEN m
  ELSE RunPosts(SetV(Log(m, "icr", Str(posts[1]), m.v), Fn(posts[1], m.v)), Tail(posts))

(***************************************************************************)
(* Parameters and state                                                     *)
(***************************************************************************)
OwnerName(m) == IF CurObj(m) = 0 THEN "" ELSE m.objs[CurObj(m)].name
Ctx(m, name, n) == [name |-> name, full |-> Bundle(m) \o "/" \o name, mod |-> OwnerName(m), n |-> n]
CtxStr(id, ctx) == JoinBar(<< Str(id), ctx.full, ctx.mod, Str(ctx.n) >>)

RECURSIVE RunGetters(_, _, _, _)
RunGetters(m, st, i, ctx) ==
  IF i > Len(st) \/ Failed(m) THEN m
  ELSE
  LET c  == st[i]
      m1 == Log(m, "gt", CtxStr(c.id, ctx), m.r.t)
  IN CASE c.kind = "pass"  -> RunGetters(m1, st, i + 1, ctx)
       [] c.kind = "pre"   -> RunGetters([m1 EXCEPT !.r.t = Fn(c.id, @)], st, i + 1, ctx)
       [] c.kind = "post"  -> LET m2 == RunGetters(m1, st, i + 1, ctx)
                              IN  IF Failed(m2) THEN m2 ELSE [m2 EXCEPT !.r.t = Fn(c.id, @)]
       [] c.kind = "short" -> m1
       [] OTHER            -> Raise(m1, "UserError")

RECURSIVE RunCreators(_, _, _, _, _, _), GetParam(_, _, _, _)

RunInit(m, ctx, n, ini) ==
  LET m0 == Log(m, "in", Bar(ctx.name, Str(n)), "")
  IN
  CASE ini.k = "const" -> [m0 EXCEPT !.r = [t |-> Const(ini.c), n |-> n]]
    [] ini.k = "v"     -> [m0 EXCEPT !.r = [t |-> IF n = 2 THEN m.v ELSE "c33", n |-> n]]
    [] ini.k = "key"   -> LET m1 == DrawKey(m0) IN [m1 EXCEPT !.r.n = n]
    [] ini.k = "nest"  ->
         LET m1 == GetParam(m0, "nest", n, [k |-> "const", c |-> ini.c])
         IN  IF Failed(m1) THEN m1 ELSE [m1 EXCEPT !.r.t = Fn(90, @)]
    [] OTHER           -> Raise(m0, "UserError")

RunCreators(m, st, i, ctx, n, ini) ==
  IF i > Len(st) THEN RunInit(m, ctx, n, ini)
  ELSE
  LET c  == st[i]
      m1 == Log(m, "cr", Bar(CtxStr(c.id, ctx), Str(n)), "")
  IN CASE c.kind = "pass"  -> RunCreators(m1, st, i + 1, ctx, n, ini)
       [] c.kind = "const" -> RunCreators(m1, st, i + 1, ctx, n, [k |-> "const", c |-> 600 + c.id])
       [] c.kind = "wrap"  -> LET m2 == RunCreators(m1, st, i + 1, ctx, n, ini)
                              IN  IF Failed(m2) THEN m2 ELSE [m2 EXCEPT !.r.t = Fn(c.id, @)]
       [] c.kind = "shape" -> RunCreators(m1, st, i + 1, ctx, 5 - n, ini)
       [] c.kind = "short" -> [m1 EXCEPT !.r = [t |-> Const(650 + c.id), n |-> n]]
       [] c.kind = "key"   -> LET m2 == DrawKey(m1)
                              IN  IF Failed(m2) THEN m2
                                  ELSE RunCreators(Log(m2, "crk", Str(c.id), m2.r.t),
                                                   st, i + 1, ctx, n, ini)
       [] OTHER            -> Raise(m1, "UserError")

(* get_parameter: the result (or failure) is in m.r. *)
GetParam(m, name, n, ini) ==
  LET b   == Bundle(m)
      at  == << b, name >>
      ctx == Ctx(m, name, n)
      has == at \in DOMAIN F(m).params
      m0  == IF F(m).frozen THEN m
             ELSE SetF(m, [F(m) EXCEPT !.touched = @ \cup {<< "p", b >>}])
      m1  == IF has THEN [m0 EXCEPT !.r = F(m).params[at]]
             ELSE RunCreators(m0, m.crp, 1, ctx, n, ini)
      m2  == IF has \/ Failed(m1) THEN m1
             ELSE SetF(m1, [F(m1) EXCEPT !.params = (at :> m1.r) @@ @])
      m3  == RunGetters(m2, m2.gtp, 1, ctx)
  IN  IF b = "" THEN Raise(m, "ValueError")
      ELSE IF F(m).frozen /\ ~has THEN Raise(m, "ValueError")
      ELSE IF Failed(m2) \/ Failed(m3) THEN m3
      ELSE IF m3.r.n # n THEN Raise(m3, "AssertionError")
      ELSE m3

GetState(m, name, n, ini) ==
  LET b   == Bundle(m)
      at  == << b, name >>
      ctx == Ctx(m, name, n)
      has == at \in DOMAIN F(m).state
      m0  == SetF(m, [F(m) EXCEPT !.touched = @ \cup {<< "s", b >>}])
      m1  == IF has THEN [m0 EXCEPT !.r = F(m).state[at].c]
             ELSE RunCreators(m0, m.crs, 1, ctx, n, ini)
      m2  == IF has \/ Failed(m1) THEN m1
             ELSE SetF(m1, [F(m1) EXCEPT !.state = (at :> [i |-> m1.r, c |-> m1.r]) @@ @])
  IN  IF b = "" THEN Raise(m, "ValueError")
      ELSE IF ~has /\ ini.k = "none" THEN Raise(m0, "ValueError")
      ELSE IF Failed(m2) THEN m2
      ELSE RunGetters(m2, m2.gts, 1, ctx)

SetState(m, name, val) ==
  LET b  == Bundle(m)
      at == << b, name >>
      f  == F(m)
  IN  IF b = "" THEN Raise(m, "ValueError")
      ELSE SetF(m, [f EXCEPT
        !.touched = @ \cup {<< "s", b >>},
        !.state = (at :> [i |-> IF at \in DOMAIN f.state THEN f.state[at].i ELSE val,
                          c |-> val]) @@ @])

(***************************************************************************)
(* Straight-line operations                                                 *)
(***************************************************************************)
Finish1(m) == IF Failed(m) THEN m ELSE Step1(m)

DoGetp(m, op) ==
  LET m1 == GetParam(m, op.name, op.n, op.init)
  IN  IF Failed(m1) THEN m1
      ELSE Step1(SetV(Log(m1, "p", op.name, m1.r.t), m1.r.t))
DoGets(m, op) ==
  LET m1 == GetState(m, op.name, op.n, op.init)
  IN  IF Failed(m1) THEN m1
      ELSE Step1(SetV(Log(m1, "g", op.name, m1.r.t), m1.r.t))
(* src: "v" - the current value, "inc" - the entry's value plus one, which only
   constants have, or a constant. *)
DoSets(m, op) ==
  LET at  == << Bundle(m), op.name >>
      cur == IF at \in DOMAIN F(m).state THEN F(m).state[at].c.t ELSE "c0"
  IN  IF op.src = "v" THEN Finish1(SetState(m, op.name, [t |-> m.v, n |-> 2]))
      ELSE IF op.src = "inc" THEN
        IF IsConst(cur) /\ (at \notin DOMAIN F(m).state \/ F(m).state[at].c.n = 2)
          THEN Finish1(SetState(m, op.name, [t |-> Const(ConstVal(cur) + 1), n |-> 2]))
          ELSE [m EXCEPT !.skip = TRUE]
      ELSE Finish1(SetState(m, op.name, [t |-> op.src, n |-> 2]))
DoKey(m, op) ==
  LET m1 == DrawKey(m)
  IN  IF Failed(m1) THEN m1 ELSE Step1(SetV(Log(m1, "k", "", m1.r.t), m1.r.t))
DoMaybe(m, op) ==
  IF Rng(m).none THEN Step1(Log(m, "mk", "None", ""))
  ELSE LET k == KeyOf(Rng(m))
       IN  Step1(SetV(Log(SetRng(m, NextKey(Rng(m))), "mk", "", k), k))
RECURSIVE LogKeys(_, _)
LogKeys(m, ks) == IF Len(ks) = 0 THEN m ELSE LogKeys(Log(m, "ks", "", ks[1]), Tail(ks))
DoKeys(m, op) ==
  IF Rng(m).none THEN Raise(m, "ValueError")
  ELSE LET short == op.n - Len(Rng(m).sub)
           tk == TakeN(ReserveKeys(Rng(m), short), op.n, Nil)
           m1 == LogKeys(SetRng(m, tk[1]), tk[2])
       IN  Step1(IF op.n = 0 THEN m1 ELSE SetV(m1, Top(tk[2])))
DoReserve(m, op) ==
  IF Rng(m).none THEN Raise(m, "ValueError")
  ELSE Step1(SetRng(m, ReserveKeys(Rng(m), op.n)))
(* PRNGSequence objects of the user: they belong to no transform. *)
DoSeq(m, op) ==
  LET q == m.seqs[op.slot]
      put(mm, r) == [mm EXCEPT !.seqs = (op.slot :> r) @@ @]
      tk == TakeN(ReserveKeys(q, op.n - Len(q.sub)), op.n, Nil)
  IN  IF op.k = "seqnew" THEN Step1(put(m, RngOf("s" \o Str(op.seed))))
      ELSE IF op.slot \notin DOMAIN m.seqs THEN Step1(m)
      ELSE IF op.k = "seqnext" THEN Step1(put(SetV(Log(m, "sk", "", KeyOf(q)), KeyOf(q)), NextKey(q)))
      ELSE IF op.k = "seqres" THEN Step1(put(m, ReserveKeys(q, op.n)))
      ELSE Step1(put(LogKeys(m, tk[2]), tk[1]))
DoConst(m, op) == Step1(SetV(m, Const(op.c)))
DoRaise(m, op) == Raise(m, op.cls)
DoRunningInit(m, op) == Step1(Log(m, "ri", IF F(m).frozen THEN "F" ELSE "T", ""))

(* params_dict and state_dict are methods of the module. *)
InDict(m, obj, b) == \/ b = m.objs[obj].name
                     \/ HasPrefix(b, m.objs[obj].name \o "/")
                     \/ b \in m.objs[obj].subs
DoDict(m, op) ==
  LET obj == m.slots[op.slot]
      meth == IF op.k = "pdict" THEN "params_dict" ELSE "state_dict"
      m1  == PushMod(m, obj, meth)
      ic  == RunIcp(m1, 1, [name |-> m.objs[obj].name, meth |-> meth,
                            eff |-> FALSE, arg |-> FALSE], Nil)
      m2  == PopMod(Notify(ic.m, obj))
      f   == F(m)
      d   == IF op.k = "pdict"
             THEN {<< x[1] \o "/" \o x[2], f.params[x].t, f.params[x].n >> :
                    x \in {y \in DOMAIN f.params : InDict(m, obj, y[1])}}
             ELSE {<< x[1] \o "/" \o x[2], f.state[x].c.t, f.state[x].c.n >> :
                    x \in {y \in DOMAIN f.state : InDict(m, obj, y[1])}}
  IN  IF op.slot \notin DOMAIN m.slots THEN Step1(m)
      ELSE Step1(LogD(m2, "dict", meth, d))

(***************************************************************************)
(* Modules, methods, scopes                                                 *)
(***************************************************************************)
BaseOf(op) == IF op.name = "" THEN ClassName(op.cls) ELSE op.name

DoNew(m, op) ==
  LET m0  == NewObj(m)
      obj == Len(m0.objs)
      m1  == PushMod(m0, obj, "__init__")
      ic  == RunIcp(m1, 1, [name |-> "", meth |-> "__init__", eff |-> FALSE, arg |-> FALSE], Nil)
      m2  == PushC(ic.m, [k |-> "new", obj |-> obj])
      m3  == IF op.sup = "yes" THEN NameModule(m2, obj, BaseOf(op)) ELSE m2
  IN  IF Failed(m2) THEN m2 ELSE Finish1(m3)
DoEndNew(m, op) ==
  LET c  == Top(m.ctl)
      o  == m.prog[op.beg]
      m1 == IF o.sup = "late" THEN NameModule(m, c.obj, BaseOf(o)) ELSE m
      m2 == Notify(m1, c.obj)
      m3 == PopC(PopMod(m2))
  IN  IF Failed(m1) THEN m1
      ELSE IF m1.objs[c.obj].name = ""
        THEN Raise(PopC(PopMod(m1)), "ValueError")
      ELSE Step1(Log([m3 EXCEPT !.slots = (o.slot :> c.obj) @@ @], "n",
                     Bar(m1.objs[c.obj].name, BaseName(m1.objs[c.obj].name)), ""))

DoCall(m, op) ==
  LET obj == m.slots[op.slot]
      tr  == op.meth = "tr"
      pf  == m.prof /\ op.meth = "__call__"
      m1  == PushMod(m, obj, op.meth)
      m2  == IF pf THEN PushF(m1, Evolve(F(m1))) ELSE m1
      m3  == IF op.meth = "prop" THEN SetV(m2, "c0") ELSE m2
      ic  == RunIcp(PushC(m3, [k |-> "call", obj |-> obj, tr |-> FALSE, pf |-> pf,
                               posts |-> Nil]), 1,
                    [name |-> m.objs[obj].name, meth |-> op.meth, eff |-> op.meth # "cell",
                     arg |-> op.meth \notin {"prop", "cell"}], Nil)
      m4  == [ic.m EXCEPT !.ctl = SetTop(@, [Top(@) EXCEPT !.posts = ic.posts])]
  IN  IF op.slot \notin DOMAIN m.slots THEN Goto(m, op.end + 1)
      ELSE IF tr THEN Step1(PushC(m, [k |-> "call", obj |-> obj, tr |-> TRUE, pf |-> FALSE,
                                      posts |-> Nil]))
      ELSE IF Failed(m4) THEN m4
      ELSE IF ic.go = "skip" THEN Goto(m4, op.end)
      ELSE Step1(m4)
DoEndCall(m, op) ==
  LET c  == Top(m.ctl)
      m1 == RunPosts(m, c.posts)
      m2 == IF c.pf THEN LET q == PopF(m1) IN SetF(q, Merge(F(q), F(m1))) ELSE m1
      m3 == PopMod(Notify(m2, c.obj))
      m4 == IF c.tr THEN m ELSE m3
  IN  Step1(Log(PopC(m4), "ret", "", m4.v))

RECURSIVE MakeScopes(_, _, _)
MakeScopes(m, subs, i) ==      \* leaves the simulated calls pushed
  IF i > Len(subs) \/ Failed(m) THEN m
  ELSE
  LET m0  == NewObj(m)
      obj == Len(m0.objs)
      m1  == PushMod(m0, obj, "__init__")
      ic  == RunIcp(m1, 1, [name |-> "", meth |-> "__init__", eff |-> FALSE, arg |-> FALSE], Nil)
      m2  == IF Failed(ic.m) THEN ic.m ELSE NameModule(ic.m, obj, subs[i])
      m3  == PushMod(PopMod(Notify(m2, obj)), obj, "__call__")
  IN  IF Failed(m2) THEN m2 ELSE MakeScopes(m3, subs, i + 1)
DoScope(m, op) ==
  LET depth == Len(F(m).mstk)
      m1  == MakeScopes(m, SplitPath(op.name), 1)
      obj == Top(F(m1).mstk).obj
      cut(mm) == SetF(mm, [F(mm) EXCEPT !.mstk = SubSeq(@, 1, depth),
                             !.cnts = SubSeq(@, 1, depth + 1), !.used = SubSeq(@, 1, depth + 1)])
  IN  IF op.name = "" \/ Char(op.name, 1) = "/" THEN Raise(m, "ValueError")
      ELSE IF Failed(m1) THEN cut(m1)
      ELSE Step1(PushC(PushMod(cut(m1), obj, "__call__"), [k |-> "scope"]))
DoEndScope(m, op) ==
  LET o == m.prog[op.beg]
      m1 == PopC(PopMod(m))
  IN  Step1(IF o.reuse THEN Log(m1, "reuse", "", "") ELSE m1)

(***************************************************************************)
(* Other contexts                                                           *)
(***************************************************************************)
DoWithRng(m, op) ==
  Step1(PushC(SetF(m, [F(m) EXCEPT !.rngs = Append(@, RngOf("s" \o Str(op.seed)))]),
              [k |-> "withrng"]))
DoEndWithRng(m, op) == Step1(PopC(SetF(m, [F(m) EXCEPT !.rngs = Pop(@)])))

Hook(op) == [kind |-> op.kind, id |-> op.id]
DoCreator(m, op) ==
  Step1(PushC([m EXCEPT !.crp = IF op.p THEN Append(@, Hook(op)) ELSE @,
                        !.crs = IF op.s THEN Append(@, Hook(op)) ELSE @],
              [k |-> "creator", p |-> op.p, s |-> op.s]))
UndoCreator(m, c) == [m EXCEPT !.crp = IF c.p THEN Pop(@) ELSE @,
                               !.crs = IF c.s THEN Pop(@) ELSE @]
DoGetter(m, op) ==
  Step1(PushC([m EXCEPT !.gtp = IF op.p THEN Append(@, Hook(op)) ELSE @,
                        !.gts = IF op.s THEN Append(@, Hook(op)) ELSE @],
              [k |-> "getter", p |-> op.p, s |-> op.s]))
UndoGetter(m, c) == [m EXCEPT !.gtp = IF c.p THEN Pop(@) ELSE @,
                              !.gts = IF c.s THEN Pop(@) ELSE @]
DoIcp(m, op) == Step1(PushC([m EXCEPT !.icp = Append(@, Hook(op))], [k |-> "icp"]))
UndoIcp(m) == [m EXCEPT !.icp = Pop(@)]
(* A creator, getter or interceptor context made but never entered. *)
DoUnused(m, op) == Step1(m)

DoTry(m, op) ==
  Step1(PushC(m, [k |-> "try", end |-> op.end, slots |-> m.slots, buns |-> m.buns]))
DoIf(m, op) ==
  IF (op.when = "init") = ~F(m).frozen THEN Step1(PushC(m, [k |-> "if"]))
  ELSE Goto(m, op.end + 1)

(***************************************************************************)
(* Blocks that run through JAX: the local names (slots, buns) of the block  *)
(* are its own, and if it fails its record is dropped.                      *)
(***************************************************************************)
Blk(m, k) == [k |-> k, v0 |-> m.v, slots |-> m.slots, buns |-> m.buns, log |-> Len(m.log)]
CutLog(m, c) == [m EXCEPT !.log = SubSeq(@, 1, c.log)]
Locals(m, c) == [m EXCEPT !.slots = c.slots, !.buns = c.buns]

DoWrap(m, op) ==
  LET m1 == PushC(PushF(m, Evolve(F(m))), Blk(m, "wrap"))
  IN  Step1(IF op.kind = "vmap" THEN SetV(m1, Pair(m1.v, "L")) ELSE m1)
AnyLane(f) == \/ \E x \in DOMAIN f.params : Lane(f.params[x].t)
              \/ \E x \in DOMAIN f.state : Lane(f.state[x].c.t) \/ Lane(f.state[x].i.t)
DoEndWrap(m, op) ==
  LET c  == Top(m.ctl)
      o  == m.prog[op.beg]
      m1 == Locals(PopC(PopF(m)), c)
      m2 == SetF(m1, Merge(F(m1), F(m)))
  IN  IF o.kind = "eval_shape" THEN Step1(SetV(Log(CutLog(m1, c), "shape", "", ""), c.v0))
      ELSE IF o.kind = "vmap" THEN
        IF AnyLane(F(m)) THEN Raise(m, "ValueError")
        ELSE Step1(SetV(m2, Replace(m.v, "L", LaneConst)))
      ELSE IF o.kind \in {"grad", "vgrad"} THEN Step1(Log(m2, o.kind, "", m.v))
      ELSE Step1(m2)

(* optimize_rng_use: a trial run that only counts, then one reservation. *)
DoOpt(m, op) ==
  Step1(PushC([PushF(m, Evolve(F(m))) EXCEPT !.cntr = Append(@, 0)],
              [Blk(m, "opt") EXCEPT !.k = "optdry"]))
DoEndOpt(m, op) ==
  LET c  == Top(m.ctl)
      n  == Top(m.cntr)
      m1 == [Locals(CutLog(PopC(PopF(m)), c), c) EXCEPT !.cntr = Pop(@), !.v = c.v0]
      m2 == IF Rng(m1).none THEN m1 ELSE SetRng(m1, ReserveKeys(Rng(m1), n))
  IN  IF c.k = "optdry" THEN Goto(PushC(m2, [c EXCEPT !.k = "opt"]), op.beg + 1)
      ELSE Step1(Locals(PopC(m), c))

(* Inside a vmap JAX decides per value, not per iteration or branch, whether it
   depends on the lane: mixed cases are not specified. *)
LaneSig(f, v) == << Lane(v), {x \in DOMAIN f.state : Lane(f.state[x].c.t)} >>

(* switch and cond: every branch is traced from the same point; the result is
   the outcome of the selected one. *)
DoSwitch(m, op) ==
  LET m1 == SetRng(m, FullBlock(Rng(m)))
      nb == Len(op.starts)
      ix == IF op.idx >= 0 THEN op.idx
            ELSE IF IsConst(m.v) THEN ConstVal(m.v) % nb ELSE -1
      c  == [k |-> "sw", v0 |-> m.v, slots |-> m.slots, buns |-> m.buns, log |-> Len(m.log),
             ix |-> ix, outs |-> Nil, objs |-> Nil]
  IN  IF ix < 0 THEN [m EXCEPT !.skip = TRUE]
      ELSE Goto(PushC(PushF(m1, Evolve(F(m1))), c), op.starts[1])
DoBranchEnd(m, op) ==
  LET c  == Top(m.ctl)
      o  == m.prog[op.beg]
      m1 == SetRng(m, FullBlock(Rng(m)))
      outs == Append(c.outs, [f |-> F(m1), v |-> m1.v, log |-> SubSeq(m1.log, c.log + 1, Len(m1.log))])
      m2 == Locals(CutLog(PopF(m1), c), c)
      sel == outs[c.ix + 1]
      m3 == PopC(SetF(m2, Merge(F(m2), sel.f)))
  IN  IF Len(outs) < Len(o.starts)
        THEN Goto(SetV([PushF(m2, Evolve(F(m2))) EXCEPT !.ctl = SetTop(@, [c EXCEPT !.outs = outs])],
                       c.v0), o.starts[Len(outs) + 1])
      ELSE IF \E i \in 1..Len(outs) : Shape(outs[i].f) # Shape(outs[1].f)
        THEN Raise([m2 EXCEPT !.frames = Append(@, F(m1))], "TypeError")
      ELSE IF \E i \in 1..Len(outs) : \/ Bundles(outs[i].f) # Bundles(outs[1].f)
                                     \/ LaneSig(outs[i].f, outs[i].v) # LaneSig(outs[1].f, outs[1].v)
        THEN [m EXCEPT !.skip = TRUE]
      ELSE Goto(SetV([m3 EXCEPT !.log = @ \o sel.log], sel.v), o.end + 1)

(***************************************************************************)
(* Loops.  done counts iterations; phase:                                   *)
(*   snap - an iteration run in place (init unrolls the first one): its     *)
(*          effects are direct, only module naming is put back after it;    *)
(*   dry  - zero iterations: the body is only traced;                       *)
(*   snap0 - zero iterations during init: run in place for its parameters;  *)
(*   iter - a traced iteration.                                             *)
(***************************************************************************)
LoopIn(op, carry, i) ==      \* the value the body sees in iteration i (0-based)
  LET j == IF op.k = "scan" /\ op.rev THEN op.n - 1 - i ELSE i
  IN  CASE op.k = "scan" -> IF op.n = 0 THEN (IF op.xs THEN Pair(carry, "z") ELSE carry)
                            ELSE IF op.xs THEN Pair(carry, Const(100 + j)) ELSE carry
        [] op.k = "fori" -> Pair(carry, Const(op.lo + j))
        [] OTHER -> carry

StartIter(m, c, op, phase, carry) ==
  Goto(SetV([Locals(PushF(m, Evolve(F(m))), c)
               EXCEPT !.ctl = SetTop(@, [c EXCEPT !.phase = phase, !.cntr = m.cntr])],
            LoopIn(op, carry, c.done)), c.start + 1)

RECURSIVE LogYs(_, _, _)
LogYs(m, ys, rev) ==
  IF Len(ys) = 0 THEN m
  ELSE IF rev THEN LogYs(Log(m, "y", "", Top(ys)), Pop(ys), rev)
  ELSE LogYs(Log(m, "y", "", ys[1]), Tail(ys), rev)
EndLoop(m, c, op, carry) ==
  LET m1 == SetV(Locals(PopC(m), c), carry)
  IN  Goto(IF op.k = "scan" THEN LogYs(Log(m1, "ys", Str(Len(c.ys)), ""), c.ys, op.rev) ELSE m1,
           op.end + 1)

(* while_loop conditions: "lt" counts iterations, "st" reads a state entry,
   "key" and "set" are not allowed to.  [m, go] *)
WhileCond(m, c, op) ==
  CASE op.ck = "lt" -> [m |-> m, go |-> c.done < op.n]
    [] op.ck = "st" ->
         LET m1 == GetState(PushF(m, Evolve(F(m))), op.name, 2, [k |-> "none"])
         IN  IF Failed(m1) THEN [m |-> Raise(m, m1.exc), go |-> FALSE]
             ELSE IF ~IsConst(m1.r.t) \/ m1.r.n # 2 \/ c.done > 5
               THEN [m |-> [m EXCEPT !.skip = TRUE], go |-> FALSE]
             ELSE [m |-> m, go |-> ConstVal(m1.r.t) < op.n]
    [] op.ck = "key" -> [m |-> Raise(m, "ValueError"), go |-> FALSE]
    [] OTHER -> [m |-> Raise(m, "ValueError"), go |-> FALSE]

NextIter(m, c, op, carry) ==    \* m: body frame popped, ctl top is c
  IF op.k = "while" THEN
    LET w == WhileCond(m, c, op)
    IN  IF Failed(w.m) \/ w.m.skip THEN w.m
        ELSE IF w.go THEN StartIter(m, c, op, "iter", carry)
        ELSE IF c.done = 0 /\ c.phase # "dry" THEN StartIter(m, c, op, "dry", carry)
        ELSE EndLoop(m, c, op, carry)
  ELSE IF c.done < op.n THEN StartIter(m, c, op, "iter", carry)
  ELSE IF op.n = 0 /\ c.phase # "dry" THEN StartIter(m, c, op, "dry", carry)
  ELSE EndLoop(m, c, op, carry)

DoLoop(m, op) ==
  LET c == [k |-> "loop", v0 |-> m.v, slots |-> m.slots, buns |-> m.buns, log |-> Len(m.log),
            start |-> m.pc, done |-> 0, phase |-> "new", ys |-> Nil, base |-> F(m),
            traced |-> FALSE, cntr |-> m.cntr]
      m1 == PushC(m, c)
      m2 == SetRng(m, FullBlock(Rng(m)))
      c2 == [c EXCEPT !.base = F(m2)]
      init == ~F(m).frozen
  IN  IF init /\ op.k = "while" THEN Raise(m, "ValueError")
      ELSE IF init /\ op.n = 0 THEN
        IF op.k = "fori" THEN [m EXCEPT !.skip = TRUE]
        ELSE StartIter(m1, c, op, "snap0", m.v)
      ELSE IF init THEN StartIter(m1, c, op, "snap", m.v)
      ELSE NextIter(PushC(m2, c2), c2, op, m.v)
DoEndLoop(m, op) ==
  LET c  == Top(m.ctl)
      o  == m.prog[c.start]
      q  == PopF(m)
      direct == SetF(q, Merge(F(q), F(m)))
      full == SetRng(m, FullBlock(Rng(m)))
      traced == SetF(q, Merge(F(q), F(full)))
      blk == SetRng(direct, FullBlock(Rng(direct)))
      c1 == [c EXCEPT !.done = @ + 1, !.ys = Append(@, m.v)]
      set(mm, cc) == [mm EXCEPT !.ctl = SetTop(@, cc)]
      cin == IF Len(c.ys) = 0 THEN c.v0 ELSE Top(c.ys)
  IN
  IF LaneSig(F(m), m.v) # LaneSig(F(q), cin) THEN [m EXCEPT !.skip = TRUE] ELSE
  CASE c.phase = "snap0" -> EndLoop(CutLog(direct, c), c, o, c.v0)
    [] c.phase = "snap" ->
         IF c1.done = o.n THEN EndLoop(set(direct, c1), c1, o, m.v)
         ELSE LET c2 == [c1 EXCEPT !.base = F(blk), !.phase = "new"]
              IN  NextIter(set(blk, c2), c2, o, m.v)
    [] OTHER ->
         IF o.k = "scan" /\ DOMAIN F(m).params # DOMAIN F(q).params
           THEN Raise(m, "AssertionError")
         ELSE IF Shape(F(m)) # Shape(F(q))
           THEN Raise(m, "TypeError")
         ELSE IF Bundles(F(m)) # Bundles(F(q)) THEN [m EXCEPT !.skip = TRUE]
         ELSE IF c.phase = "dry"
           THEN EndLoop(CutLog(q, c), c, o, c.v0)
         ELSE LET c2 == [c1 EXCEPT !.phase = "new", !.traced = TRUE]
                  \* keys are counted when the body is traced, which is once
                  m2 == IF c.traced THEN [traced EXCEPT !.cntr = c.cntr] ELSE traced
              IN  NextIter(set(m2, c2), c2, o, m.v)

(***************************************************************************)
(* Transforms inside the function                                           *)
(***************************************************************************)
(* rng: "none", "key" (drawn from the enclosing stream) or a seed; [m, r] *)
InnerRng(m, src) ==
  IF src = "none" THEN [m |-> m, r |-> NoRng]
  ELSE IF src = "key" THEN
    LET m1 == DrawKey(m) IN [m |-> m1, r |-> IF Failed(m1) THEN NoRng ELSE RngOf(m1.r.t)]
  ELSE [m |-> m, r |-> RngOf(src)]
StateOf(s) == [x \in DOMAIN s |-> [i |-> s[x], c |-> s[x]]]
Firsts(s) == [x \in DOMAIN s |-> s[x].i]
Currents(s) == [x \in DOMAIN s |-> s[x].c]
Entries(p) == {<< x[1], x[2], p[x].t, p[x].n >> : x \in DOMAIN p}

NoBun == [p |-> Nil, s |-> Nil]
Bun(m, i) == IF i \in DOMAIN m.buns THEN m.buns[i] ELSE NoBun
SetBun(m, i, b) == [m EXCEPT !.buns = (i :> b) @@ @]
NestBlk(m, k) == [k |-> k, v0 |-> m.v, slots |-> m.slots, buns |-> m.buns]

DoIInit(m, op) ==
  LET g == InnerRng(m, op.rng)
  IN  IF Failed(g.m) THEN g.m
      ELSE Step1(PushC(PushF(g.m, Frame(Nil, FALSE, Nil, g.r)), NestBlk(m, "inner")))
DoEndIInit(m, op) ==
  LET c == Top(m.ctl)
      o == m.prog[op.beg]
      b == [p |-> F(m).params, s |-> Firsts(F(m).state)]
      m1 == SetV(Locals(PopC(PopF(m)), c), c.v0)
  IN  Step1(LogD(LogD(SetBun(m1, o.bun, b), "ip", "", Entries(b.p)), "is", "", Entries(b.s)))
DoIApply(m, op) ==
  LET g == InnerRng(m, op.rng)
      b == Bun(m, op.bun)
  IN  IF Failed(g.m) THEN g.m
      ELSE Step1(PushC(PushF(g.m, Frame(b.p, TRUE, StateOf(b.s), g.r)), NestBlk(m, "inner")))
DoEndIApply(m, op) ==
  LET c == Top(m.ctl)
      o == m.prog[op.beg]
      s == Currents(F(m).state)
      m1 == Locals(PopC(PopF(m)), c)
  IN  Step1(LogD(Log(SetBun(m1, o.bun, [Bun(m1, o.bun) EXCEPT !.s = s]), "ia", "", m.v),
                 "is", "", Entries(s)))

(* hk.experimental.lift *)
Lifted(f, prefix) ==
  LET xs == {x \in DOMAIN f.params : HasPrefix(x[1], prefix)}
  IN  [y \in {<< DropPrefix(x[1], prefix), x[2] >> : x \in xs} |->
         f.params[<< prefix \o y[1], y[2] >>]]
CallTg(m, obj) == [name |-> m.objs[obj].name, meth |-> "__call__", eff |-> FALSE, arg |-> FALSE]
DoLift(m, op) ==
  LET g   == IF F(m).frozen THEN [m |-> m, r |-> NoRng] ELSE InnerRng(m, op.rng)
      m0  == NewObj(g.m)
      obj == Len(m0.objs)
      m1  == PushMod(m0, obj, "__init__")
      ic  == RunIcp(m1, 1, [name |-> "", meth |-> "__init__", eff |-> FALSE, arg |-> FALSE], Nil)
      m2  == IF Failed(ic.m) THEN ic.m ELSE NameModule(ic.m, obj, op.name)
      m3  == PopMod(Notify(m2, obj))
      nm  == m3.objs[obj].name
      m4  == PushMod(Log(m3, "n", Bar(nm, BaseName(nm)), ""), obj, "__call__")
      m5  == IF m.prof THEN PushF(m4, Evolve(F(m4))) ELSE m4
      m6  == RunIcp(m5, 1, CallTg(m5, obj), Nil).m
      p   == Lifted(F(m), nm \o "/")
      m7  == PopMod(Notify(IF m.prof THEN PopF(m6) ELSE m6, obj))
  IN  IF Failed(g.m) THEN g.m
      ELSE IF Failed(m2) THEN PopMod(m2)
      ELSE IF F(m).frozen
        THEN Goto(LogD(SetBun(m7, op.bun, [p |-> p, s |-> Nil]), "lp", "", Entries(p)), op.end + 1)
      ELSE Step1(PushC(PushF(m6, Frame(Nil, FALSE, Nil, g.r)),
                       [k |-> "lift", v0 |-> m.v, slots |-> m.slots, buns |-> m.buns, obj |-> obj,
                        pf |-> m.prof]))
DoEndLift(m, op) ==
  LET c  == Top(m.ctl)
      o  == m.prog[op.beg]
      p  == F(m).params
      m1 == SetV(Locals(PopF(m), c), c.v0)
      nm == m1.objs[c.obj].name
      bs == {nm \o "/" \o x[1] : x \in DOMAIN p}
      clash == \E b \in bs : \/ << "p", b >> \in F(m1).touched
                             \/ \E x \in DOMAIN F(m1).params : x[1] = b
      new == [y \in {<< nm \o "/" \o x[1], x[2] >> : x \in DOMAIN p} |->
                p[<< DropPrefix(y[1], nm \o "/"), y[2] >>]]
      m2 == SetF(m1, [F(m1) EXCEPT !.params = new @@ @,
                                   !.touched = @ \cup {<< "p", b >> : b \in bs}])
      m3 == IF c.pf THEN LET q == PopF(m2) IN SetF(q, Merge(F(q), F(m2))) ELSE m2
      m4 == PopC(PopMod(Notify(m3, c.obj)))
  IN  IF DOMAIN F(m).state # {} THEN Raise(m, "ValueError")
      ELSE IF F(m).touched # {} /\ \E y \in F(m).touched : y[1] = "s"
        THEN [m EXCEPT !.skip = TRUE]
      ELSE IF clash THEN [m EXCEPT !.skip = TRUE]
      ELSE Step1(LogD(SetBun(m4, o.bun, [p |-> p, s |-> Nil]), "lp", "", Entries(p)))

(***************************************************************************)
(* Failure: leave one block per step until a try.                           *)
(***************************************************************************)
Unwind(m) ==
  LET c == Top(m.ctl)
      d == PopC(m)
  IN
  CASE c.k = "new" -> PopMod(d)
    [] c.k = "call" -> IF c.tr THEN d ELSE PopMod(IF c.pf THEN PopF(d) ELSE d)
    [] c.k = "scope" -> PopMod(d)
    [] c.k = "withrng" -> SetF(d, [F(d) EXCEPT !.rngs = Pop(@)])
    [] c.k = "creator" -> UndoCreator(d, c)
    [] c.k = "getter" -> UndoGetter(d, c)
    [] c.k = "icp" -> UndoIcp(d)
    [] c.k = "if" -> d
    [] c.k = "try" -> Goto(SetV(Log(Locals([d EXCEPT !.exc = ""], c), "caught", m.exc, ""), "c0"),
                           c.end + 1)
    [] c.k = "wrap" -> CutLog(PopF(d), c)
    [] c.k = "sw" -> CutLog(PopF(d), c)
    [] c.k = "optdry" -> CutLog([PopF(d) EXCEPT !.cntr = Pop(@)], c)
    [] c.k = "opt" -> CutLog(d, c)
    [] c.k = "loop" ->
         LET q == IF c.phase = "new" THEN d ELSE PopF(d)
         IN  CutLog(IF c.phase \in {"snap", "snap0"} THEN SetF(q, Merge(F(q), F(d)))
                    ELSE SetF(q, c.base), c)
    [] c.k = "inner" -> Locals(PopF(d), c)
    [] c.k = "lift" -> LET q == Locals(PopF(d), c)
                       IN  PopMod(IF c.pf THEN PopF(q) ELSE q)

DoEnd(m, op) ==
  LET c == Top(m.ctl)
  IN
  CASE c.k = "new" -> DoEndNew(m, op)
    [] c.k = "call" -> DoEndCall(m, op)
    [] c.k = "scope" -> DoEndScope(m, op)
    [] c.k = "withrng" -> DoEndWithRng(m, op)
    [] c.k = "creator" -> Step1(PopC(UndoCreator(m, c)))
    [] c.k = "getter" -> Step1(PopC(UndoGetter(m, c)))
    [] c.k = "icp" -> Step1(PopC(UndoIcp(m)))
    [] c.k \in {"if", "try"} -> Step1(PopC(m))
    [] c.k = "wrap" -> DoEndWrap(m, op)
    [] c.k = "sw" -> DoBranchEnd(m, op)
    [] c.k \in {"optdry", "opt"} -> DoEndOpt(m, op)
    [] c.k = "loop" -> DoEndLoop(m, op)
    [] c.k = "inner" -> IF m.prog[op.beg].k = "iinit" THEN DoEndIInit(m, op) ELSE DoEndIApply(m, op)
    [] c.k = "lift" -> DoEndLift(m, op)

(***************************************************************************)
(* Properties of a machine in every state                                   *)
(***************************************************************************)
KeysFresh(m) ==          \* C08: no key handed out twice or split again
  \A i \in 1..Len(m.frames) :
    \A j \in 1..Len(m.frames[i].rngs) : m.frames[i].rngs[j].none \/ RngOK(m.frames[i].rngs[j])
SeqsFresh(m) == \A i \in DOMAIN m.seqs : RngOK(m.seqs[i])
StacksAligned(m) ==      \* C04, C06: naming levels follow the running methods
  \A i \in 1..Len(m.frames) :
    /\ Len(m.frames[i].cnts) = Len(m.frames[i].mstk) + 1
    /\ Len(m.frames[i].used) = Len(m.frames[i].mstk) + 1
ContextsMatch(m) ==      \* C04, C09, C10: active hooks are exactly those of open blocks
  LET n(k) == Cardinality({i \in 1..Len(m.ctl) : m.ctl[i].k = k})
  IN  /\ Len(m.icp) = n("icp")
      /\ Len(m.cntr) = n("optdry")
      /\ Len(m.crp) <= n("creator") /\ Len(m.crs) <= n("creator")
      /\ Len(m.gtp) <= n("getter") /\ Len(m.gts) <= n("getter")
NamesDistinct(m) ==      \* C06: names taken at one level are those of distinct modules
  \A i \in 1..Len(m.frames) : \A j \in 1..Len(m.frames[i].used) :
    \A x \in m.frames[i].used[j] : x # ""
OwnersKnown(m) ==        \* C07: every entry belongs to a bundle
  \A i \in 1..Len(m.frames) :
    /\ \A x \in DOMAIN m.frames[i].params : x[1] # ""
    /\ \A x \in DOMAIN m.frames[i].state : x[1] # ""
MachineOK(m) == KeysFresh(m) /\ SeqsFresh(m) /\ StacksAligned(m) /\ ContextsMatch(m)
                /\ NamesDistinct(m) /\ OwnersKnown(m)
=============================================================================
