"""Executes core-machine programs on the real library and records what happens.

Only the public interface of haiku is used.  The recorder mirrors the events of
spec/HkCore.tla.  Values inside JAX-traced blocks leave the block as one vector
of words next to a static template, which `decode` turns back into events.
"""
import contextlib
import dataclasses
import threading
from typing import Any, Optional

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

import terms

U = jnp.uint32
W0 = 448     # words per traced branch or loop row without one inside
B = 7        # rows of a loop buffer


class UserError(Exception):
  pass


class Overflow(BaseException):
  """The recording buffers are too small for this case: not judged."""


def err_name(e):
  for c in (UserError, ValueError, AssertionError, TypeError):
    if isinstance(e, c):
      return c.__name__
  return type(e).__name__


def const(n):
  if isinstance(n, int):
    return jnp.asarray(terms.const(n))
  return jnp.stack([jnp.asarray(n).astype(U), jnp.asarray(terms.MARK, U)])


def h(i, x):
  a, b = terms.fn_coeffs(i)
  return x * U(a) + U(b)


def p(x, y):
  return x * U(5) + y * U(11) + U(3)


def pad(x, n):
  k = n - x.shape[0]
  return jnp.concatenate([x, jnp.zeros(k, U)]) if k > 0 else x[:n]


# ---------------------------------------------------------------------------
# Modules


class Mod(hk.Module):

  def __init__(self, run, sup="yes", name=None):
    if sup == "yes":
      super().__init__(name=name)
    run()
    if sup == "late":
      super().__init__(name=name)

  def __call__(self, run, v):
    return run(v)

  def meth(self, run, v):
    return run(v)

  def _aux(self, run, v):
    return run(v)

  @property
  def prop(self):
    return self._prop_run()

  @property
  def cell(self):
    return self._cell

  @cell.setter
  def cell(self, run):
    run()

  @hk.transparent
  def tr(self, run, v):
    return run(v)


class HTTPServer(Mod):
  pass


class Conv2DNet(Mod):

  def __call__(self, run, v):  # An overridden method is wrapped like any other.
    return run(v)


class ABc(Mod):
  pass


@dataclasses.dataclass
class Data(hk.Module):
  run: Any
  sup: str = "yes"
  name: Optional[str] = None

  def __post_init__(self):
    if self.sup == "yes":
      super().__post_init__()
    self.run()
    if self.sup == "late":
      super().__post_init__()

  def __call__(self, run, v):
    return run(v)

  def meth(self, run, v):
    return run(v)

  def _aux(self, run, v):
    return run(v)

  @property
  def prop(self):
    return self._prop_run()

  @property
  def cell(self):
    return self._cell

  @cell.setter
  def cell(self, run):
    run()

  @hk.transparent
  def tr(self, run, v):
    return run(v)


def as_fn(run, v):
  return run(v)


class Fn(hk.to_module(as_fn)):
  """A module made from a function, whose default name is that of the function."""

  def __init__(self, run, sup="yes", name=None):
    if sup == "yes":
      super().__init__(name=name)
    run()
    if sup == "late":
      super().__init__(name=name)

  def meth(self, run, v):
    return run(v)

  def _aux(self, run, v):
    return run(v)

  @property
  def prop(self):
    return self._prop_run()

  @property
  def cell(self):
    return self._cell

  @cell.setter
  def cell(self, run):
    run()

  @hk.transparent
  def tr(self, run, v):
    return run(v)


CLASSES = {c.__name__: c for c in (Mod, HTTPServer, Conv2DNet, ABc, Data, Fn)}

# ---------------------------------------------------------------------------
# Recording


class Rec:

  def __init__(self):
    self.items = []
    self.arrs = []

  def add(self, item, arr=None):
    self.items.append(item)
    self.arrs.append(jnp.zeros(0, U) if arr is None else arr)


def pack(rec):
  flat = [jnp.reshape(a, (-1,)) for a in rec.arrs]
  sizes = [a.shape[0] for a in flat]
  vec = jnp.concatenate(flat) if flat else jnp.zeros(0, U)
  return vec, (list(rec.items), sizes)


def decode_vec(template, vec):
  items, sizes = template
  vec = np.asarray(vec).reshape(-1)
  arrs, at = [], 0
  for n in sizes:
    arrs.append(vec[at:at + n])
    at += n
  return decode(items, arrs)


def decode(items, arrs):
  """Events: (kind, static, value): value is words, {key: words}, lanes or None."""
  out = []
  for item, arr in zip(items, arrs):
    k = item[0]
    arr = np.asarray(arr).reshape(-1)
    if k == "ev":
      out.append((item[1], item[2], arr if arr.size else None))
    elif k == "dict":
      keys, sizes = item[3], item[4]
      d, at = {}, 0
      for key, n in zip(keys, sizes):
        d[key] = arr[at:at + n]
        at += n
      out.append((item[1], item[2], d))
    elif k == "blk":
      out.extend(decode_vec(item[1][-1], arr))
    elif k == "vmap":
      rows = arr.reshape(item[2], -1)
      lanes = [decode_vec(item[1][-1], r) for r in rows]
      for evs in zip(*lanes):
        k0, s0, _ = evs[0]
        vals = [e[2] for e in evs]
        out.append((k0, s0, None if vals[0] is None else ("lanes", vals)))
    elif k == "loop":
      n, rev = item[2], item[3]
      rows = arr.reshape(n, -1) if n else []
      for j, r in enumerate(rows[::-1] if rev else rows):
        out.extend(decode_vec(item[1][-1 if j else 0], r))
    elif k == "rows":      # count, then padded rows
      n = int(arr[0])
      rows = arr[1:].reshape(B, -1)
      for j, r in enumerate(rows[:n]):
        out.extend(decode_vec(item[1][-1 if j else 0], r))
    elif k == "sw":
      out.extend(decode_vec(item[1][int(arr[0])][-1], arr[1:]))
    else:
      raise AssertionError(k)
  return out


def pad_row(vec, w):
  if vec.shape[0] > w:
    raise Overflow()
  return jnp.concatenate([vec, jnp.zeros(w - vec.shape[0], U)])


# ---------------------------------------------------------------------------


class Runner:
  """One execution of one program (prog: list of ops, 1-based `end` fields)."""

  def __init__(self, prog, gate=None):
    self.prog = prog
    self.rec = Rec()
    self.v = const(0)
    self.slots = {}
    self.buns = {}
    self.seqs = {}
    self.gate = gate or (lambda: None)

  def log(self, kind, s="", val=None):
    self.rec.add(("ev", kind, s), val)

  def log_dict(self, kind, s, d):
    keys = sorted(d)
    vals = [jnp.reshape(d[k], (-1,)) for k in keys]
    self.rec.add(("dict", kind, s, keys, [x.shape[0] for x in vals]),
                 jnp.concatenate(vals) if vals else None)

  def events(self):
    return decode(self.rec.items, self.rec.arrs)

  def __call__(self):
    self.span(0, len(self.prog))
    return self.v

  def span(self, i, j):
    while i < j:
      op = self.prog[i]
      self.gate()
      getattr(self, "op_" + op["k"])(op, i)
      i = op.get("end", i + 1)

  def body(self, op, i):
    self.span(i + 1, op["end"] - 1)
    self.gate()      # the closing operation

  # -- straight line ---------------------------------------------------------

  def make_init(self, ini, name):
    k = ini["k"]
    def init(shape, dtype):
      n, = shape
      bad = "" if jnp.dtype(dtype) == jnp.uint32 else f"|{dtype}"
      self.log("in", f"{name}|{n}{bad}")
      if k == "const":
        return pad(const(ini["c"]), n)
      if k == "v":
        return self.v if n == 2 else pad(const(33), n)
      if k == "key":
        return pad(hk.next_rng_key(), n)
      if k == "nest":
        x = hk.get_parameter("nest", [n], U,
                             self.make_init({"k": "const", "c": ini["c"]}, "nest"))
        return h(90, x)
      raise UserError("initializer")
    return init

  def op_getp(self, op, i):
    x = hk.get_parameter(op["name"], [op["n"]], U, init=self.make_init(op["init"], op["name"]))
    self.log("p", op["name"], x)
    self.v = x[:2]

  def op_gets(self, op, i):
    if op["init"]["k"] == "none":
      x = hk.get_state(op["name"], [op["n"]], U)
    else:
      x = hk.get_state(op["name"], [op["n"]], U, init=self.make_init(op["init"], op["name"]))
    self.log("g", op["name"], x)
    self.v = x[:2]

  def op_sets(self, op, i):
    src = op["src"]
    if src == "v":
      val = self.v
    elif src == "inc":
      val = self.quiet_read(op["name"]) + jnp.asarray([1, 0], U)
    else:
      val = const(int(src[1:]))
    hk.set_state(op["name"], val)

  def quiet_read(self, name):
    """The stored value: our getters return it untouched and unrecorded."""
    self.mute += 1
    try:
      return hk.get_state(name)
    except ValueError:
      return const(0)
    finally:
      self.mute -= 1

  mute = 0

  def op_key(self, op, i):
    k = hk.next_rng_key()
    self.log("k", "", k)
    self.v = k

  def op_maybe(self, op, i):
    k = hk.maybe_next_rng_key()
    if k is None:
      self.log("mk", "None")
    else:
      self.log("mk", "", k)
      self.v = k

  def op_keys(self, op, i):
    ks = hk.next_rng_keys(op["n"])
    if len(ks) != op["n"]:
      self.log("ks", f"{len(ks)} keys")
    for k in ks:
      self.log("ks", "", k)
      self.v = k

  def op_reserve(self, op, i):
    hk.reserve_rng_keys(op["n"])

  def op_seqnew(self, op, i):
    n = op["seed"]
    self.seqs[op["slot"]] = hk.PRNGSequence(n if op["int"] else jax.random.PRNGKey(n))

  def op_seqnext(self, op, i):
    if op["slot"] in self.seqs:
      self.v = next(self.seqs[op["slot"]])
      self.log("sk", "", self.v)

  def op_seqres(self, op, i):
    if op["slot"] in self.seqs:
      self.seqs[op["slot"]].reserve(op["n"])

  def op_seqtake(self, op, i):
    if op["slot"] in self.seqs:
      ks = self.seqs[op["slot"]].take(op["n"])
      if len(ks) != op["n"]:
        self.log("ks", f"{len(ks)} keys")
      for k in ks:
        self.log("ks", "", k)

  def op_const(self, op, i):
    self.v = const(op["c"])

  def op_raise(self, op, i):
    raise {"UserError": UserError, "ValueError": ValueError, "TypeError": TypeError,
           "AssertionError": AssertionError}[op["cls"]]("raised by the function")

  def op_rinit(self, op, i):
    self.log("ri", "T" if hk.running_init() else "F")

  def op_pdict(self, op, i):
    if op["slot"] in self.slots:
      self.log_dict("dict", "params_dict", self.slots[op["slot"]].params_dict())

  def op_sdict(self, op, i):
    if op["slot"] in self.slots:
      self.log_dict("dict", "state_dict", self.slots[op["slot"]].state_dict())

  # -- modules ---------------------------------------------------------------

  def op_new(self, op, i):
    cls = CLASSES[op["cls"]]
    obj = cls(lambda: self.body(op, i), op["sup"], op["name"] or None)
    self.slots[op["slot"]] = obj
    self.log("n", f"{obj.module_name}|{obj.name}")

  def op_call(self, op, i):
    if op["slot"] not in self.slots:
      return
    obj = self.slots[op["slot"]]
    def run(v):
      self.v = v
      self.span(i + 1, op["end"] - 1)
      return self.v
    if op["meth"] == "__call__":
      self.v = obj(run, v=self.v) if op.get("kw") else obj(run, self.v)
    elif op["meth"] in ("meth", "_aux"):
      meth = getattr(obj, op["meth"])
      self.v = meth(v=self.v, run=run) if op.get("kw") else meth(run, self.v)
    elif op["meth"] == "cell":
      obj.cell = lambda: run(self.v)
    elif op["meth"] == "tr":
      self.v = obj.tr(run, self.v)
    else:
      obj._prop_run = lambda: run(const(0))
      self.v = obj.prop
    self.gate()
    self.log("ret", "", self.v)

  def op_scope(self, op, i):
    scope = hk.experimental.name_scope(op["name"])
    with scope:
      self.body(op, i)
    if op.get("reuse"):
      try:
        with scope:
          self.log("reuse", "allowed")
      except ValueError:
        self.log("reuse")

  # -- contexts --------------------------------------------------------------

  def op_withrng(self, op, i):
    with hk.with_rng(jax.random.PRNGKey(op["seed"])):
      self.body(op, i)

  def ctx_str(self, ident, ctx):
    mod = "" if ctx.module is None else ctx.module.module_name
    s = f"{ident}|{ctx.full_name}|{mod}|{'' if ctx.original_shape is None else ctx.original_shape[0]}"
    if f"{ctx.module_name}/{ctx.name}" != ctx.full_name or jnp.dtype(ctx.original_dtype) != jnp.uint32:
      s += f"|{ctx.module_name}|{ctx.name}|{ctx.original_dtype}"
    return s

  def make_creator(self, op):
    ident, kind = op["id"], op["kind"]
    def creator(next_creator, shape, dtype, init, context):
      n, = shape
      self.log("cr", self.ctx_str(ident, context) + f"|{n}")
      if kind == "pass":
        return next_creator(shape, dtype, init)
      if kind == "const":
        return next_creator(shape, dtype,
                            self.make_init({"k": "const", "c": 600 + ident}, context.name))
      if kind == "wrap":
        return h(ident, next_creator(shape, dtype, init))
      if kind == "shape":
        return next_creator([5 - n], dtype, init)
      if kind == "short":
        return pad(const(650 + ident), n)
      if kind == "key":
        self.log("crk", str(ident), hk.next_rng_key())
        return next_creator(shape, dtype, init)
      raise UserError("creator")
    return creator

  def make_getter(self, op):
    ident, kind = op["id"], op["kind"]
    def getter(next_getter, value, context):
      if self.mute:
        return value        # stop here: give the reader the stored value
      self.log("gt", self.ctx_str(ident, context), value)
      if kind == "pass":
        return next_getter(value)
      if kind == "pre":
        return next_getter(h(ident, value))
      if kind == "post":
        return h(ident, next_getter(value))
      if kind == "short":
        return value
      raise UserError("getter")
    return getter

  def make_icp(self, op):
    ident, kind = op["id"], op["kind"]
    def icp(next_f, args, kwargs, context):
      module, meth = context.module, context.method_name
      ours = isinstance(module, (Mod, Data, Fn)) and meth in ("__call__", "meth", "_aux", "prop")
      arg = ours and meth != "prop"
      val = None
      if arg:
        val = kwargs["v"] if "v" in kwargs else args[1]
      self.log("ic", f"{ident}|{getattr(module, 'module_name', '')}|{meth}", val)
      if kind == "raise" and (ours or meth == "__init__"):
        raise UserError("interceptor")
      if not ours or kind == "pass":
        return next_f(*args, **kwargs)
      if kind == "arg":
        if arg and "v" in kwargs:
          kwargs = dict(kwargs, v=h(ident, val))
        elif arg:
          args = (args[0], h(ident, val))
        return next_f(*args, **kwargs)
      if kind == "res":
        out = next_f(*args, **kwargs)
        self.log("icr", str(ident), out)
        return h(ident, out)
      if kind == "key":
        self.log("ick", str(ident), hk.next_rng_key())
        return next_f(*args, **kwargs)
      if kind == "short":
        return context.orig_method(*args, **kwargs)
      return const(700 + ident)
    return icp

  def op_creator(self, op, i):
    with hk.experimental.custom_creator(self.make_creator(op), params=op["p"], state=op["s"]):
      self.body(op, i)

  def op_getter(self, op, i):
    with hk.experimental.custom_getter(self.make_getter(op), params=op["p"], state=op["s"]):
      self.body(op, i)

  def op_icp(self, op, i):
    with hk.experimental.intercept_methods(self.make_icp(op)):
      self.body(op, i)

  def op_unused(self, op, i):
    what = op["what"]
    if what == "creator":
      hk.experimental.custom_creator(self.make_creator(op), params=True, state=True)
    elif what == "getter":
      hk.experimental.custom_getter(self.make_getter(op), params=True, state=True)
    elif what == "icp":
      hk.experimental.intercept_methods(self.make_icp(op))
    else:
      hk.with_rng(jax.random.PRNGKey(op["id"]))

  def op_try(self, op, i):
    slots, buns = dict(self.slots), dict(self.buns)
    try:
      self.body(op, i)
    except Exception as e:  # pylint: disable=broad-except
      self.slots, self.buns = slots, buns
      self.log("caught", err_name(e))
      self.v = const(0)

  def op_if(self, op, i):
    if hk.running_init() == (op["when"] == "init"):
      self.body(op, i)

  # -- blocks through JAX ----------------------------------------------------

  def block(self, lo, hi, holder):
    """A function v -> (v, words) running ops lo..hi-1 with its own record."""
    def fun(v):
      rec, slots, buns, old = self.rec, self.slots, self.buns, self.v
      self.rec, self.slots, self.buns, self.v = Rec(), dict(slots), dict(buns), v
      try:
        self.span(lo, hi)
        self.gate()
        # Every run of the body has its template: the first iteration of a loop
        # (run in place by init) may record more than the others.
        vec, template = pack(self.rec)
        holder.append(template)
        return self.v, vec
      finally:
        self.rec, self.slots, self.buns, self.v = rec, slots, buns, old
    return fun

  def width(self, op, i):
    """Words of a row of this block: rows of blocks inside are part of it."""
    depth = most = 0
    ends = []
    for j in range(i + 1, op["end"] - 1):
      while ends and j + 1 >= ends[-1]:
        ends.pop()
        depth -= 1
      if self.prog[j]["k"] in ("switch", "scan", "fori", "while"):
        ends.append(self.prog[j]["end"])
        depth += 1
        most = max(most, depth)
    return W0 * (B + 1) ** most

  def op_wrap(self, op, i):
    kind, holder = op["kind"], []
    f = self.block(i + 1, op["end"] - 1, holder)
    v0 = self.v
    if kind == "jit" and op.get("argn"):
      self.v, vec = hk.jit(lambda *, v: f(v))(v=v0)
    elif kind == "jit":
      self.v, vec = hk.jit(f)(v0)
    elif kind == "remat":
      self.v, vec = hk.remat(f)(v0)
    elif kind == "named_call":
      self.v, vec = hk.experimental.named_call(f, name="part")(v0)
    elif kind == "vmap":
      lanes = jnp.stack([const(1000), const(1001)])
      if op.get("argn") == 1:
        vs, vec = hk.vmap(lambda v, l: f(p(v, l)), in_axes=(None, 1), out_axes=1)(v0, lanes.T)
        vs, vec = vs.T, vec.T
      else:
        vs, vec = hk.vmap(lambda l: f(p(v0, l)))(lanes)
      self.rec.add(("vmap", holder, 2), vec)
      self.v = vs[0]
      return
    elif kind == "eval_shape":
      shape, vec = hk.eval_shape(f, v0)
      ok = shape.shape == (2,) and shape.dtype == jnp.uint32
      self.log("shape", "" if ok else f"{shape}")
      return
    elif kind in ("grad", "vgrad"):
      def loss(c, x):
        v, vec = f(v0)
        return c * x * (v[0] & 15).astype(jnp.float32), (v, vec)
      def loss0(x):
        return loss(jnp.float32(1.), x)
      one, two = jnp.float32(1.), jnp.float32(2.)
      alt = op.get("argn", 0)
      if kind == "grad":
        if alt:
          g, (v, vec) = hk.grad(loss, argnums=1, has_aux=True)(one, two)
        else:
          g, (v, vec) = hk.grad(loss0, has_aux=True)(two)
      elif alt:
        (y, (v, vec)), (g0, g) = hk.value_and_grad(loss, argnums=(0, 1), has_aux=True)(one, two)
        g = jnp.where((y == 2 * g) & (g0 == y), g, -1.)
      else:
        (y, (v, vec)), g = hk.value_and_grad(loss0, has_aux=True)(two)
        g = jnp.where(y == 2 * g, g, -1.)
      self.rec.add(("blk", holder), vec)
      self.v = v
      self.log(kind, "", jnp.reshape(g.astype(jnp.int32).astype(U), (1,)))
      return
    else:
      raise AssertionError(kind)
    self.rec.add(("blk", holder), vec)

  def op_opt(self, op, i):
    holder = []
    f = self.block(i + 1, op["end"] - 1, holder)
    self.v, vec = hk.experimental.optimize_rng_use(f)(self.v)
    self.rec.add(("blk", holder), vec)

  def op_switch(self, op, i):
    starts = [s - 1 for s in op["starts"]]
    ends = [s - 1 for s in starts[1:]] + [op["end"] - 1]
    holders = [[] for _ in starts]
    w = self.width(op, i)
    def branch(b):
      f = self.block(starts[b], ends[b], holders[b])
      def g(v):
        out, vec = f(v)
        return out, pad_row(vec, w)
      return g
    fs = [branch(b) for b in range(len(starts))]
    ix = op["idx"] if op["idx"] >= 0 else (self.v[0] % U(len(fs))).astype(jnp.int32)
    v0 = self.v
    if op["kind"] == "switch":
      self.v, vec = hk.switch(ix, fs, v0)
    elif op["kind"] == "cond":
      self.v, vec = hk.cond(jnp.asarray(ix) == 0, fs[0], fs[1], v0)
    else:
      self.v, vec = hk.cond(jnp.asarray(ix) == 0, v0, fs[0], v0, fs[1])
    self.rec.add(("sw", holders),
                 jnp.concatenate([jnp.reshape(jnp.asarray(ix).astype(U), (1,)), vec]))

  def op_scan(self, op, i):
    holder, n, w = [], op["n"], self.width(op, i)
    f = self.block(i + 1, op["end"] - 1, holder)
    def step(carry, x):
      v, vec = f(carry if x is None else p(carry, x))
      return v, (v, pad_row(vec, w))
    xs = None
    if op["xs"]:
      xs = jnp.asarray(np.array([terms.const(100 + j) for j in range(n)],
                                np.uint32).reshape(n, 2))
    length = None if op["xs"] and not op.get("len") else n
    self.v, (ys, vecs) = hk.scan(step, self.v, xs, length=length, reverse=op["rev"],
                                 unroll=op.get("unroll", 1))
    self.rec.add(("loop", holder, n, op["rev"]), vecs)
    self.log("ys", str(ys.shape[0]))
    for j in range(ys.shape[0]):
      self.log("y", "", ys[j])

  def op_fori(self, op, i):
    holder, n, lo, w = [], op["n"], op["lo"], self.width(op, i)
    f = self.block(i + 1, op["end"] - 1, holder)
    def body(j, val):
      v, buf = val
      v, vec = f(p(v, const(j)))
      return v, buf.at[j - lo].set(pad_row(vec, w))
    self.v, buf = hk.fori_loop(lo, lo + n, body, (self.v, jnp.zeros((B, w), U)))
    self.rec.add(("rows", holder), jnp.concatenate([jnp.asarray([n], U), buf.reshape(-1)]))

  def op_while(self, op, i):
    holder, n, w = [], op["n"], self.width(op, i)
    f = self.block(i + 1, op["end"] - 1, holder)
    def body(val):
      v, buf, c = val
      v, vec = f(v)
      return v, buf.at[c].set(pad_row(vec, w)), c + 1
    def cond(val):
      if op["ck"] == "lt":
        return val[2] < n
      if op["ck"] == "st":
        self.mute += 1
        try:
          return hk.get_state(op["name"])[0] < n
        finally:
          self.mute -= 1
      if op["ck"] == "key":
        return hk.next_rng_key()[0] < n
      if op["ck"] == "keys":
        hk.reserve_rng_keys(2)
        return val[2] < n
      hk.set_state("cond", const(1))
      return val[2] < n
    self.v, buf, c = hk.while_loop(cond, body, (self.v, jnp.zeros((B, w), U), jnp.int32(0)))
    self.rec.add(("rows", holder),
                 jnp.concatenate([jnp.reshape(c.astype(U), (1,)), buf.reshape(-1)]))

  # -- transforms inside -----------------------------------------------------

  def inner_rng(self, src):
    if src == "none":
      return None
    if src == "key":
      return hk.next_rng_key()
    return jax.random.PRNGKey(int(src[1:]))

  @contextlib.contextmanager
  def own_slots(self):
    slots, buns = dict(self.slots), dict(self.buns)
    try:
      yield
    finally:
      self.slots, self.buns = slots, buns

  def op_iinit(self, op, i):
    rng = self.inner_rng(op["rng"])
    v0 = self.v
    with self.own_slots():
      params, state = hk.transform_with_state(lambda: self.body(op, i)).init(rng)
    self.v = v0
    self.buns[op["bun"]] = (strip(params), strip(state))
    self.log_dict("ip", "", flat(params))
    self.log_dict("is", "", flat(state))

  def op_iapply(self, op, i):
    rng = self.inner_rng(op["rng"])
    params, state = self.buns.get(op["bun"], ({}, {}))
    def f():
      self.body(op, i)
      return self.v
    with self.own_slots():
      v, state = hk.transform_with_state(f).apply(params, state, rng)
    self.v = v
    self.buns[op["bun"]] = (strip(params), strip(state))
    self.log("ia", "", v)
    self.log_dict("is", "", flat(state))

  def op_lift(self, op, i):
    rng = self.inner_rng(op["rng"]) if hk.running_init() else None
    v0 = self.v
    with self.own_slots():
      lifted = hk.experimental.lift(hk.transform(lambda: self.body(op, i)).init, name=op["name"])
      self.log("n", f"{lifted.module_name}|{lifted.name}")
      params = lifted(rng)
    self.v = v0
    self.buns[op["bun"]] = (strip(params), {})
    self.log_dict("lp", "", flat(params))


def strip(d):
  """Bundles without entries are not passed on."""
  if all(len(b) for b in d.values()):
    return d
  return hk.data_structures.to_immutable_dict({k: dict(b) for k, b in d.items() if len(b)})


def flat(d):
  return {f"{b}|{n}": x for b, bun in d.items() for n, x in bun.items()}


# ---------------------------------------------------------------------------
# Calls


def mapping(entries, ev):
  """Plain nested dict from specification entries [bundle, name, term, n]."""
  out = {}
  for b, n, t, w in entries:
    out.setdefault(b, {})[n] = jnp.asarray(ev(t, w))
  return out


def snapshot(d):
  if d is None:
    return {}
  return {(b, n): np.asarray(x) for b, bun in d.items() for n, x in bun.items()}


PROBES = [
    ("get_parameter", lambda: hk.get_parameter("w", [], init=jnp.ones)),
    ("get_state", lambda: hk.get_state("s", [], init=jnp.ones)),
    ("set_state", lambda: hk.set_state("s", 1)),
    ("next_rng_key", hk.next_rng_key),
    ("maybe_next_rng_key", hk.maybe_next_rng_key),
    ("running_init", hk.running_init),
    ("Module", lambda: Mod(lambda: None)),
]


def probe_idle():
  """Outside every transform the library must say so."""
  bad = []
  for name, f in PROBES:
    try:
      f()
      bad.append(f"{name} works outside a transform")
    except ValueError:
      pass
    except Exception as e:  # pylint: disable=broad-except
      bad.append(f"{name} outside a transform raises {type(e).__name__}")
  return bad


class Shared:
  """Transformed functions used by all calls (and threads) of a session."""

  def __init__(self):
    self.now = threading.local()
    self.made = {}
    self.lock = threading.Lock()

  def get(self, call):
    key = (call["prog"], call["var"], bool(call.get("ws")), call["nr"])
    with self.lock:
      if key not in self.made:
        def fun(v, *, w=0):
          return self.now.fun(v, w=w)
        self.made[key] = transformed(call, fun)
      return self.made[key]


def transformed(call, fun):
  stateful = call["var"] == "tws"
  f = hk.transform_with_state(fun) if stateful else hk.transform(fun)
  if call.get("ws") and not stateful:
    f = hk.without_state(hk.transform_with_state(fun))
  if call["nr"]:
    f = hk.without_apply_rng(f)
  return f


def run_call(call, prog, params, state, gate=None, shared=None):
  """Runs one init/apply. Returns dict(err, v, params, state, events, problems)."""
  runner = Runner(prog, gate)
  out = dict(err="", v=None, params=None, state=None, events=None, problems=[], msg="")
  if call["rng"] == "none":
    rng = None
  elif call["rng"] == "bad":
    rng = jnp.ones([3], jnp.float32)
  else:
    n = int(call["rng"][1:])
    rng = n if call.get("seedint") else jax.random.PRNGKey(n)
  stateful = call["var"] == "tws"
  jit = call.get("jit", False)
  holder = []

  def fun(v, *, w=0):
    runner.v = v + jnp.asarray([w, 0], U)
    if not jit:
      return runner()
    f = runner.block(0, len(prog), holder)
    return f(runner.v)

  arg = call["arg"]
  fargs, fkw = ((const(arg - 1),), dict(w=1)) if call["kw"] and arg else ((const(arg),), {})

  if shared is None or jit:
    f = transformed(call, fun)
  else:
    shared.now.fun = fun
    f = shared.get(call)
  if call["form"] == "dict":
    params, state = (hk.data_structures.to_mutable_dict(x) for x in (params, state))
  elif call["form"] == "none":
    params, state = (x if x else None for x in (params, state))
  before_p, before_s = snapshot(params), snapshot(state)
  prof = gate is None
  if prof:      # a setting of the process, not of the call
    prev = hk.experimental.profiler_name_scopes(call["prof"])
  try:
    if call["kind"] == "init":
      g = jax.jit(f.init) if jit else f.init
      res = g(rng, *fargs, **fkw)
      out["params"], out["state"] = res if stateful else (res, {})
    else:
      g = jax.jit(f.apply) if jit else f.apply
      args = (params, state) if stateful else (params,)
      if not call["nr"]:
        args += (rng,)
      res = g(*args, *fargs, **fkw)
      out["v"], out["state"] = res if stateful else (res, {})
      if jit:
        out["v"], vec = out["v"]
        out["events"] = decode_vec(holder[-1], vec)
  except Exception as e:  # pylint: disable=broad-except
    out["err"] = err_name(e)
    out["msg"] = f"{type(e).__name__}: {e}"[:300]
  finally:
    if prof:
      hk.experimental.profiler_name_scopes(prev)
  if not jit:
    out["events"] = runner.events()
  for what, now, old in (("params", snapshot(params), before_p), ("state", snapshot(state), before_s)):
    if now.keys() != old.keys() or any(not np.array_equal(now[k], old[k]) for k in old):
      out["problems"].append(f"the {what} passed in were modified")
  return out
