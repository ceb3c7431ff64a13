"""Replays HkSummary on hk.experimental.eval_summary and tabulate."""
from concurrent import futures
import pprint
import threading

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
import tabulate

import core
import driver
import terms

EV = terms.Evaluator()
U = jnp.uint32
SALT = [0]      # of the case


class Spec:
  """An array of the summary."""

  def __init__(self, shape, dtype):
    self.shape, self.dtype = tuple(shape), np.dtype(dtype)

  def __repr__(self):
    t = {"float32": "f32", "bfloat16": "bf16", "uint32": "u32", "int32": "s32", "float16": "f16", "bool": "bool"}
    return f"{t[jnp.dtype(self.dtype).name]}[{','.join(map(str, self.shape))}]"

  def __eq__(self, other):
    return (tuple(other.shape), jnp.dtype(other.dtype)) == (self.shape, jnp.dtype(self.dtype))

  @property
  def size(self):
    return int(np.prod(self.shape))


def param(name, n):
  """Shape and type of a parameter or state entry by name and tag."""
  i = sum(map(ord, name)) + SALT[0]
  shapes = [(2, 3), (700, n), (n,), (40, 30, n), (), (n, 1), (7,), (1, 500, n)]
  return shapes[(i + n + SALT[0] // 8 * ord(name[0])) % len(shapes)], [jnp.float32, jnp.float16, jnp.int32][(i * n) % 3]


def one(x):
  """Two words that depend on x."""
  return jnp.stack([jnp.reshape(x, (-1,))[0].astype(U)] * 2)


class Body:

  def __call__(self, *args, **kwargs):
    return self._run()

  def meth(self, *args, **kwargs):
    return self._run()

  def _aux(self, *args, **kwargs):
    return self._run()

  @property
  def prop(self):
    return self._run()

  @property
  def cell(self):
    return None

  @cell.setter
  def cell(self, value):
    self._run()

  @hk.transparent
  def tr(self):
    return self._run()


PYTHON_NAME = lambda cls: "AsFn" if cls == "Fn" else cls


def module(cls):
  ns = {k: v for k, v in vars(Body).items() if k in ("__call__", "meth", "_aux", "prop", "cell", "tr")}
  def __init__(self, run, sup="yes", name=None):
    if sup == "yes":
      super(type(self), self).__init__(name=name)
    run()
    if sup == "late":
      super(type(self), self).__init__(name=name)
  return type(hk.Module)(PYTHON_NAME(cls), (hk.Module,), dict(ns, __init__=__init__))


CLASSES = {c: module(c) for c in ("Mod", "HTTPServer", "Conv2DNet", "ABc", "Data", "Fn")}


def arguments(pc, v, arrays, make):
  """Arguments of the call at pc. make builds a value of a shape and type."""
  ws = [((v,), {}), ((), dict(v=v)), (((v, {"b": None, "a": make((), U)}),), {}), ((make((0, 2), jnp.int32),), dict(z=(v,))),
        ((), {})]
  if not arrays:
    ws += [((make((3, pc), jnp.float32),), dict(flag=True, y=make((2,), jnp.bfloat16))), (([v, v], "text"), {})]
  return ws[pc % len(ws)]


def result(pc, v, arrays, make):
  ws = [v, None, (v, [make((), U)]), {"o": make((2, 3), jnp.bfloat16)}, make((4,), bool), ()] + ([] if arrays else [3.5])
  return ws[(pc // 2) % len(ws)]


def zeros(shape, dtype):
  return jnp.zeros(shape, dtype)


class Run:
  """The body of a constructor."""

  def __init__(self, f):
    self.f = f

  def __call__(self):
    self.f()

  def __repr__(self):
    return "run"


class Runner(driver.Runner):
  """Runs the program with parameters, arguments and results of many shapes."""
  arrays = False

  def log(self, kind, s="", val=None):
    pass

  def log_dict(self, kind, s, d):
    pass

  def make_init(self, ini, n):
    k = ini["k"]
    def init(shape, dtype):
      if k == "v" and n == 2:
        return jnp.zeros(shape, dtype) + self.v[0].astype(dtype)
      if k == "key":
        hk.next_rng_key()
      if k == "nest":
        hk.get_parameter("nest", *param("nest", n), init=jnp.zeros)
      if k == "raise":
        raise driver.UserError("initializer")
      return jnp.zeros(shape, dtype)
    return init

  def op_getp(self, op, i):
    x = hk.get_parameter(op["name"], *param(op["name"], op["n"]), init=self.make_init(op["init"], op["n"]))
    self.v = one(x)

  def op_gets(self, op, i):
    init = None if op["init"]["k"] == "none" else self.make_init(op["init"], op["n"])
    self.v = one(hk.get_state(op["name"], *param(op["name"], op["n"]), init=init))

  def op_sets(self, op, i):
    shape, dtype = param(op["name"], 2)
    val = jnp.zeros(shape, dtype)
    if op["src"] == "v":
      val = val + self.v[0].astype(dtype)
    elif op["src"] == "inc":
      try:
        val = val + jnp.reshape(hk.get_state(op["name"]), (-1,))[0]
      except ValueError:
        pass
    hk.set_state(op["name"], val)

  def op_pdict(self, op, i):
    if op["slot"] in self.slots:
      self.slots[op["slot"]].params_dict()

  def op_sdict(self, op, i):
    if op["slot"] in self.slots:
      self.slots[op["slot"]].state_dict()

  def op_new(self, op, i):
    self.slots[op["slot"]] = CLASSES[op["cls"]](Run(lambda: self.body(op, i)), op["sup"], op["name"] or None)

  def op_call(self, op, i):
    if op["slot"] not in self.slots:
      return
    obj = self.slots[op["slot"]]
    if op["meth"] == "prop":
      self.v = driver.const(0)
    v = self.v
    def run():
      self.v = v
      self.span(i + 1, op["end"] - 1)
      return result(i + 1, self.v, self.arrays, zeros)
    obj._run = run
    args, kwargs = arguments(i + 1, v, self.arrays, zeros)
    if op["meth"] == "__call__":
      obj(*args, **kwargs)
    elif op["meth"] in ("meth", "_aux"):
      getattr(obj, op["meth"])(*args, **kwargs)
    elif op["meth"] == "prop":
      obj.prop  # pylint: disable=pointless-statement
    elif op["meth"] == "cell":
      obj.cell = v
    else:
      obj.tr()

  def op_iinit(self, op, i):
    rng, v0 = self.inner_rng(op["rng"]), self.v
    with self.own_slots():
      params, state = hk.transform_with_state(lambda: self.body(op, i)).init(rng)
    self.v = v0
    self.buns[op["bun"]] = (driver.strip(params), driver.strip(state))

  def make_icp(self, op):
    kind = op["kind"]
    def icp(next_f, args, kwargs, context):
      ours = type(context.module) in CLASSES.values() and context.method_name in ("__call__", "meth", "_aux", "prop")
      if kind == "raise" and (ours or context.method_name == "__init__"):
        raise driver.UserError("interceptor")
      if ours and kind == "key":
        hk.next_rng_key()
      if ours and kind == "short":
        return context.orig_method(*args, **kwargs)
      return next_f(*args, **kwargs)
    return icp


def entries(d):
  return {full: Spec(*param(name, n)) for full, _, name, n in d}


def owned(d):
  return {name: Spec(*param(name, n)) for _, own, name, n in d if own}


def same(a, b):
  """Equal trees of arrays and other things."""
  if isinstance(b, Spec):
    return hasattr(a, "shape") and hasattr(a, "dtype") and b == a
  if isinstance(b, (tuple, list)):
    return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
  if isinstance(b, dict):
    return isinstance(a, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in b)
  return type(a) is type(b) and a == b


def expected(case, row):
  op = case["prog"][row["at"] - 1]
  v = Spec((2,), U)
  arrays = case["prof"]
  args, kwargs = arguments(row["at"], v, arrays, Spec)
  out = result(row["at"], v, arrays, Spec)
  if op["meth"] == "prop":
    args, kwargs = (), {}
  if op["meth"] == "cell":
    args, kwargs, out = (v,), {}, None
  return args, kwargs, out


def cls_of(case, d):
  return PYTHON_NAME(case["prog"][d["new"] - 1]["cls"]) if d["new"] else None


def details(case, got, want, where, deeper=()):
  """deeper: names of the modules called from it and still running, which it may list already."""
  d = want["d"]
  mod = got.module
  if (mod.module_name, got.method_name) != (d["name"], want["meth"]):
    return f"{where} is {mod.module_name}.{got.method_name}, should be {d['name']}.{want['meth']}"
  if cls_of(case, d) and type(mod).__name__ != cls_of(case, d):
    return f"{where}: {d['name']} is a {type(mod).__name__}, should be {cls_of(case, d)}"
  for what in ("params", "state"):
    want = entries(d[what])
    if not same({k: x for k, x in getattr(got, what).items() if k in want or k.rsplit("/", 1)[0] not in deeper}, want):
      return f"{where}: {d['name']} has {what} {dict(getattr(got, what))}, should have {entries(d[what])}"
  return None


def compare(case, got, rows):
  name = lambda r: r["stack"][0]["d"]["name"] + "." + r["stack"][0]["meth"]
  if len(got) != len(rows):
    have = [x and f"{x.module_details.module.module_name}.{x.module_details.method_name}" for x in got]
    return f"the calls are {have}, should be {[name(r) for r in rows]}"
  for i, (g, r) in enumerate(zip(got, rows)):
    where = f"row {i} ({name(r)})"
    if g is None:
      return f"{where} is missing"
    bad = details(case, g.module_details, r["stack"][0], where)
    if bad:
      return bad
    if len(g.call_stack) != len(r["stack"]):
      return f"{where}: {len(g.call_stack)} methods are running, should be {len(r['stack'])}"
    for j, (gd, rd) in enumerate(zip(g.call_stack, r["stack"])):
      bad = details(case, gd, rd, f"{where}, caller {j}", [x["d"]["name"] for x in r["stack"][:j]])
      if bad:
        return bad
    if g.context.module is not g.module_details.module or g.context.method_name != r["stack"][0]["meth"]:
      return f"{where}: wrong context"
    for what, have, want in zip(("arguments", "keywords", "result"), (g.args_spec, g.kwargs_spec, g.output_spec),
                                expected(case, r)):
      if not same(have, want):
        return f"{where}: {what} {have}, should be {want}"
  return None


def in_bytes(n):
  units = ["B", "KB", "MB", "GB", "TB"]
  n = float(n)
  while n >= 1000 and len(units) > 1:
    n /= 1000
    units.pop(0)
  return f"{n:.2f} {units[0]}"


def config(case, d):
  """How a module is shown: its class and the arguments that are not defaults."""
  op = case["prog"][d["new"] - 1]
  args = ["run=run"] + [f"{k}={op[k]!r}" for k, default in (("sup", "yes"), ("name", "")) if op[k] != default]
  return f"{PYTHON_NAME(op['cls'])}({', '.join(args)})"


def cells(case, got, row):
  """The cells of a row of the table."""
  def entry(w, g):
    name = cls_of(case, w["d"]) or type(g.module).__name__
    return f"{w['d']['name']} ({name}{'' if w['meth'] == '__call__' else '.' + w['meth']})"
  d = row["stack"][0]["d"]
  args, kwargs, out = expected(case, row)
  own = sorted(owned(d["params"]).items(), key=lambda kv: (-kv[1].size, kv[0]))
  every = entries(d["params"]).values()
  text = ", ".join(pprint.pformat(a) for a in args)
  if kwargs:
    text += "\n" + ", ".join(f"{k}={pprint.pformat(x)}" for k, x in kwargs.items())
  return dict(
      module=("Module", "\n └ ".join(map(entry, row["stack"], got.call_stack)), "left"),
      config=("Config", config(case, d), "left"),
      owned_params=("Module params", "\n".join(f"{k}: {x}" for k, x in own), "left"),
      input=("Input", text, "left"), output=("Output", pprint.pformat(out), "left"),
      params_size=("Param count", f"{sum(x.size for x in every):,}", "right"),
      params_bytes=("Param bytes", in_bytes(sum(x.size * x.dtype.itemsize for x in every)), "right"))


ALL = ("module", "config", "owned_params", "input", "output", "params_size", "params_bytes")


def table(case, got, rows, columns, filters, kwargs):
  out = []
  for g, r in zip(got, rows):
    if "has_output" in filters and expected(case, r)[2] is None:
      continue
    if "has_params" in filters and not r["stack"][0]["d"]["params"]:
      continue
    c = cells(case, g, r)
    out.append([c[k] for k in columns])
  if not out:
    return "No modules matching filters."
  return tabulate.tabulate([[x[1] for x in row] for row in out], headers=[x[0] for x in out[0]],
                           colalign=[x[2] for x in out[0]], **kwargs)


def play(beh, job, ix):
  case = job["data"][beh["cid"] - 1]
  outs = beh["outs"]
  if any(o["skip"] for o in outs):
    return None
  prof, salt = case["prof"], case["salt"]
  SALT[0] = salt
  err = outs[-1]["err"]

  def call(kind, at):
    return dict(prog=1, kind=kind, var="tws", nr=False, prof=prof, rng="s42", pref=at, sref=at, pe=[], se=[], ws=False,
                arg=case["arg"], kw=False, form="same", seedint=False, jit=False)

  def fun(v, *, w=0):
    if not isinstance(v, jax.core.Tracer):
      raise AssertionError("the summary runs the function on values")
    if barrier:
      barrier.wait()
    r = Runner(case["prog"])
    r.arrays = prof
    r.v = v
    r()
    return r.v
  form = [fun, hk.transform(fun), hk.transform_with_state(fun), hk.without_apply_rng(hk.transform_with_state(fun)),
          hk.transform_with_state(fun).init, hk.without_state(hk.transform_with_state(fun)), hk.transform(fun).apply][salt % 7]
  arg = driver.const(case["arg"])
  columns = [ALL, ALL, ("module", "params_bytes"), ("output", "input", "owned_params"), ALL[::-1]][salt % 5]
  filters = [("has_output", "has_params"), (), ("has_params",), ("has_output",)][salt // 5 % 4]
  tkw = [dict(tablefmt="grid"), dict(tablefmt="plain"), dict(tablefmt="simple")][salt % 3]
  kw = {} if salt % 15 == 0 and salt // 5 % 4 == 0 else dict(columns=columns, filters=filters, tabulate_kwargs=tkw)
  if salt % 10 == 1 and salt // 5 % 4 == 0:
    kw = dict(columns=None, filters=None, tabulate_kwargs=tkw)
  barrier = None
  old = hk.experimental.profiler_name_scopes(prof)
  try:
    if salt % 20 == 7 and not err:      # two threads using one summary
      barrier = threading.Barrier(2, timeout=60)
      summary = hk.experimental.eval_summary(form)
      with futures.ThreadPoolExecutor(2) as pool:
        both = [x.result() for x in [pool.submit(summary, arg) for _ in range(2)]]
      barrier = None
      for got in both:
        wrong = compare(case, list(got), beh["rows"])
        if wrong:
          return "threads", wrong + " (in two threads)"
    for again in range(2):
      if not again:
        summary = hk.experimental.eval_summary(form)
      try:
        got = summary(arg, w=0) if salt % 2 else summary(arg)
        bad = ""
      except Exception as e:  # pylint: disable=broad-except
        got, bad = None, driver.err_name(e)
        msg = f"{type(e).__name__}: {e}"[:300]
      if bad != err:
        return "outcome", f"the summary {'raises ' + msg if bad else 'succeeds'}, running the function {err or 'succeeds'}"
      if not bad:
        wrong = compare(case, list(got), beh["rows"])
        if wrong:
          return "rows", wrong + (" (second summary)" if again else "")
    if not err:
      shown = hk.experimental.tabulate(form, **kw)(arg)
      want = table(case, got, beh["rows"], columns if kw and kw["columns"] else ALL,
                   filters if kw and kw["filters"] is not None else ("has_output", "has_params"),
                   tkw if kw else dict(tablefmt="grid"))
      if shown != want:
        return "table", f"the table is\n{shown}\nshould be\n{want}"
  finally:
    hk.experimental.profiler_name_scopes(old)
  left = driver.probe_idle()
  if left:
    return "idle", "; ".join(left)
  c = dict(progs=[case["prog"]], calls=[call("init", 0), call("apply", 1)][:len(outs)])
  status, mm, _, _ = core.replay(c, beh, EV)
  if status == "bad":
    return "after", f"after a summary: {mm}"
  return misuse() if beh["cid"] == 1 else None


def misuse():
  for kw in (dict(columns=["module", "nope"]), dict(filters=["nope"])):
    try:
      hk.experimental.tabulate(lambda: None, **kw)
      return "misuse", f"tabulate accepts {kw}"
    except ValueError:
      pass
  return None
