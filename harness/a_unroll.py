"""Replays HkUnroll behaviours on toy cores."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

MEMO = {}
FNS = {}
MOD = 997


def weigh(x, nb):
  u = 0
  for n, leaf in enumerate(jax.tree_util.tree_leaves(x)):
    u = u + jnp.sum(leaf * (jnp.arange(leaf.shape[-1], dtype=jnp.int32) + 1 + 10 * n), axis=-1)
  return u % MOD


class Toy(hk.RNNCore):

  def __init__(self, spec, floats, name):
    super().__init__(name=name)
    self.c = spec
    self.floats = floats

  def out(self, o):
    if self.c["cnt"]:
      n = hk.get_state("calls", [], jnp.int32, init=jnp.zeros)
      o = o + 7 * n
      hk.set_state("calls", n + 1)
    return dict(p=o % MOD, q=(o + 1) % MOD) if self.c["nest"] else o % MOD

  def start(self, batch, shape, weights, step=10):
    v = self.c["i"] + sum(w * i for w, i in zip(weights, np.indices(shape))) if shape else np.array(self.c["i"])
    if batch is not None:
      v = v + (np.arange(batch) * step).reshape((batch,) + (1,) * len(shape))
    return jnp.asarray(v, jnp.float32 if self.floats else jnp.int32)

  def w(self):
    return hk.get_parameter("w", [], jnp.int32, init=lambda s, d: jnp.full(s, self.c["w"], d))


class Acc(Toy):

  def __call__(self, x, s):
    nb = s.ndim - 1
    z = (3 * s + weigh(x, nb)[..., None] + jnp.arange(self.c["F"], dtype=jnp.int32) + self.w()) % MOD
    return self.out(2 * z + s), z

  def initial_state(self, batch_size):
    return self.start(batch_size, (self.c["F"],), [1])


class Tick(Toy):

  def __call__(self, x, s):
    u = weigh(x, s.ndim)
    o = 10 * s[..., None] + jnp.arange(self.c["F"], dtype=jnp.int32) + u[..., None] + self.w()
    return self.out(o), (s + 1 + u % 7) % MOD

  def initial_state(self, batch_size):
    return self.start(batch_size, (), [])


class Two(Toy):

  def __call__(self, x, s):
    nb = s["a"].ndim - 1
    a = (3 * s["a"] + weigh(x, nb)[..., None] + self.w()) % MOD
    b = (5 * s["b"] + s["a"][..., None] + jnp.arange(2, dtype=jnp.int32)) % MOD
    return self.out(a + b[..., 0] + 2 * b[..., 1]), dict(a=a, b=b)

  def initial_state(self, batch_size):
    return dict(a=self.start(batch_size, (self.c["F"],), [1]), b=self.start(batch_size, (self.c["F"], 2), [3, 1], 20))


def lam(x):
  return jax.tree_util.tree_map(lambda v: (2 * v + 1) % MOD, x)


def tuplemap(x):
  """lam for inputs that carry flags."""
  return (lam(x[0]), x[1]) if isinstance(x, tuple) else lam(x)


def flagger(x):
  first = jax.tree_util.tree_leaves(x)[0]
  return x, first[..., 0] % 2 == 0


def make(c, floats, names):
  k = c["k"]
  if k in ("acc", "tick", "two"):
    names.append(f"c{len(names)}")
    return dict(acc=Acc, tick=Tick, two=Two)[k](c, floats, names[-1])
  if k == "id":
    return hk.IdentityCore()
  if k == "lam":
    return tuplemap
  if k == "flagger":
    return flagger
  if k == "pick":
    return lambda x: jax.tree_util.tree_map(lambda v: v[..., 0], x)
  if k == "reset":
    return hk.ResetCore(make(c["sub"][0], floats, names))
  layers = [make(s, floats, names) for s in c["sub"]]
  if k == "deep":
    return hk.DeepRNN(layers)
  return hk.deep_rnn_with_skip_connections(layers)


def toys(c):
  return [c] if c["k"] in ("acc", "tick", "two") else [t for s in c["sub"] for t in toys(s)]


def arr(t):
  return np.asarray(t["d"], np.int32).reshape(t["s"])


def inputs(c, lo, m, major):
  """The inputs of m steps, with the time axis."""
  ax = 0 if major else 1
  x = [np.stack([arr(c["xs"][t][l]) for t in range(lo, lo + m)], ax) for l in range(len(c["xs"][0]))]
  x = x[0] if len(x) == 1 else dict(p=x[0], q=x[1])
  for n in reversed(range(len(c["fl"][0]))):
    f = [np.stack([arr(c["fl"][t][n][l]) for t in range(lo, lo + m)], ax) != 0 for l in range(len(c["fl"][0][n]))]
    if len(f) > 1:
      f = nest(resets(c["core"])[n], f)[0]
    else:
      f = f[0]
    x = (x, f)
  return jax.tree_util.tree_map(jnp.asarray, x)


def resets(core):
  """The reset cores that take the flags of the inputs, outermost first."""
  if core["k"] == "reset":
    return [core] + resets(core["sub"][0])
  if core["k"] == "deep":
    for s in core["sub"]:
      if s["k"] not in ("id", "lam"):
        return resets(s)
  return []


def nest(core, leaves):
  """Puts leaves into the core's state structure; returns the rest too."""
  k = core["k"]
  if k in ("acc", "tick"):
    return leaves[0], leaves[1:]
  if k == "two":
    return dict(a=leaves[0], b=leaves[1]), leaves[2:]
  if k in ("id", "lam", "flagger", "pick"):
    return (), leaves
  if k == "reset":
    return nest(core["sub"][0], leaves)
  out = []
  for s in core["sub"]:
    v, leaves = nest(s, leaves)
    if s["k"] not in ("lam", "flagger", "pick"):
      out.append(v)
  return tuple(out), leaves


def fn(c, kind):
  key = str((c, kind))
  if key in FNS:
    return FNS[key]
  box = []
  floats = c["salt"] % 2 == 1

  def run(core, x, s):
    if kind["u"] == "step":
      ax = 0 if kind["major"] else 1
      o, s = core(jax.tree_util.tree_map(lambda v: jnp.squeeze(v, ax), x), s)
      return jax.tree_util.tree_map(lambda v: jnp.expand_dims(v, ax), o), s
    u = hk.static_unroll if kind["u"] == "static" else hk.dynamic_unroll
    if kind["major"] and c["salt"] % 3:
      return u(core, x, s)
    return u(core, x, s, time_major=kind["major"])

  def f(x, s):
    core = make(c["core"], floats, [])
    r = run(core, x, s)
    box.append(r)
    return r

  t = hk.transform_with_state(f)
  step = hk.transform(lambda x, s: make(c["core"], floats, [])(x, s))
  start = hk.transform(lambda: make(c["core"], floats, []).initial_state(c["lead"][0] if c["lead"] else None))
  start = start.apply({}, None)
  outside = lambda params, x, s: run(lambda x, s: step.apply(params, None, x, s), x, s)
  FNS[key] = t, box, start, outside
  return FNS[key]


def same(got, want):
  got = jax.tree_util.tree_leaves(got)
  return len(got) == len(want) and all(
      g.shape == w.shape and np.array_equal(np.asarray(g), w) for g, w in zip(got, want))


def play(beh, job, ix):
  c = job["data"][beh["cid"] - 1]
  ts = toys(c["core"])
  params = {f"c{i}": {"w": jnp.asarray(t["w"], jnp.int32)} for i, t in enumerate(ts)}
  where = f"{c['core']} lead {c['lead']} "
  lo = 0
  key = str((job["seed"], beh["cid"]))
  state, hkstate = None, {f"c{i}": {"calls": jnp.zeros([], jnp.int32)} for i, t in enumerate(ts) if t["cnt"]}
  for n, h in enumerate(beh["hist"]):
    key += str((h["kind"], h["m"]))
    k, m = h["kind"], h["m"]
    if key in MEMO:
      state, hkstate = MEMO[key]
      lo += m
      continue
    t, box, start, outside = fn(c, k)
    if state is None:
      if not same(start, [arr(s) for s in beh["i0"]]):
        return "initial", where + f"initial state {start}, should be {beh['i0']}"
      state = jax.tree_util.tree_map(lambda v: v.astype(jnp.int32), start)
    x = inputs(c, lo, m, k["major"])
    del box[:]
    if k["at"] == "init":
      p, s0 = t.init(None, x, state)
      o, new = box[0]
      got = {b: {k: int(v) for k, v in d.items()} for b, d in p.items()}
      if got != {b: {k: int(v) for k, v in d.items()} for b, d in params.items()}:
        return "params", where + f"parameters {got}"
      got = {b: int(d["calls"]) for b, d in s0.items()}
      if got != {f"c{i}": 0 for i, t in enumerate(ts) if t["cnt"]}:
        return "state", where + f"initial state of counters {got}"
    elif k["at"] == "apply":
      app = jax.jit(t.apply) if c["salt"] % 5 == 0 else t.apply
      (o, new), hkstate = app(params, hkstate, None, x, state)
      got = {b: int(d["calls"]) for b, d in hkstate.items()}
      if got != {f"c{i}": h["calls"] for i, t in enumerate(ts) if t["cnt"]}:
        return "state", where + f"counters {got}, should be {h['calls']}"
    else:
      o, new = outside(params, x, state)
    step = f"step {n} {k} of {m}: "
    ax = 0 if k["major"] else 1
    want = [np.stack([arr(h["os"][t][l]) for t in range(m)], ax) for l in range(len(h["os"][0]))]
    if not same(o, want):
      return "outputs", where + step + f"outputs {o}, should be {want}"
    if not same(new, [arr(s) for s in h["st"]]):
      return "carry", where + step + f"final state {new}, should be {h['st']}"
    if jax.tree_util.tree_structure(new) != jax.tree_util.tree_structure(state):
      return "carry", where + step + f"structure of the state is {new}"
    state = new
    MEMO[key] = state, hkstate
    lo += m
  return None
