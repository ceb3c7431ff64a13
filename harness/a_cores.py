"""Replays HkCores on VanillaRNN, LSTM, convolutional LSTMs and GRU."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

FUNS = dict(sigmoid=lambda a: 1 / (1 + np.exp(-a)), tanh=np.tanh, relu=lambda a: np.maximum(a, 0), mul=lambda a, b: a * b,
            add=lambda a, b: a + b, inc=lambda a: a + 1, **{"not": lambda a: 1 - a})


def term(t, env):
  if isinstance(t, str):
    return env[t]
  if len(t) == 1:
    return env[t[0]]
  return FUNS[t[0]](*[term(a, env) for a in t[1:]])


def expected(c, beh):
  """The states of each step: dicts with h and c, flat."""
  n = max(c["batch"], 1) * int(np.prod(c["space"])) * c["hidden"]
  zero = np.zeros(n)
  env = dict(h=np.array(c["h0"] or zero) / 2, c=np.array(c["c0"] or zero) / 2)
  out = []
  for forms in beh["forms"]:
    for g, fs, over in zip(beh["gates"], forms, beh["over"]):
      src = term(over, env)
      env[g] = np.array([f["k"] + sum(w * src[u - 1] for w, u in f["t"]) for f in fs]) / 4
    for name, t in beh["terms"]:
      env[name] = term(t, env)
    env = dict(h=env["h1"], c=env.get("c1", zero))
    out.append(env)
  return out


INITS = (2., 3., 4.)  # of a GRU's w_i, w_h and b, where given


def make(c):
  H, salt = c["hidden"], c["salt"]
  if c["kind"] == "vanilla":
    kw = {} if len(c["bias"]) == 2 and salt % 2 else dict(double_bias=len(c["bias"]) == 2)
    return hk.VanillaRNN(H, name="c", **kw)
  if c["kind"] == "lstm":
    return hk.LSTM(H, name="c")
  if c["kind"] == "gru":
    if salt % 2:
      return hk.GRU(H, *[hk.initializers.Constant(v) for v in INITS], name="c")
    return hk.GRU(H, name="c")
  nd = len(c["space"])
  k = c["kernel"]
  k = k[0] if len(set(k)) == 1 and salt % 2 else k
  shape = (tuple if salt % 2 else list)(c["space"])
  cls = [hk.Conv1DLSTM, hk.Conv2DLSTM, hk.Conv3DLSTM][nd - 1]
  if salt % 3 == 0:
    return cls(input_shape=shape, output_channels=H, kernel_shape=k, name="c")
  return cls(shape, H, k, "c")


def weights(c):
  f = lambda w, s: jnp.asarray(np.array(w["d"]).reshape(s) / 4, jnp.float32)
  b = [jnp.asarray(np.array(x) / 4, jnp.float32) for x in c["bias"]]
  wx, wh, H = c["wx"], c["wh"], c["hidden"]
  if c["kind"] == "gru":
    return {"c": dict(w_i=f(wx, (wx["n"], wx["m"])), w_h=f(wh, (H, wh["m"])), b=b[0])}
  if c["kind"] == "conv":
    k = tuple(c["kernel"])
    return {"c/input_to_hidden": dict(w=f(wx, k + (wx["n"], wx["m"])), b=b[0]),
            "c/hidden_to_hidden": dict(w=f(wh, k + (H, wh["m"])), b=b[1])}
  wx, wh = f(wx, (wx["n"], wx["m"])), f(wh, (H, wh["m"]))
  if c["kind"] == "lstm":
    return {"c/linear": dict(w=jnp.concatenate([wx, wh]), b=b[0])}
  d = {"c/linear": dict(w=wx, b=b[0]), "c/linear_1": dict(w=wh)}
  if len(b) > 1:
    d["c/linear_1"]["b"] = b[1]
  return d


def lead(c):
  return (() if not c["batch"] else (c["batch"],)) + tuple(c["space"])


def play(beh, job, ix):
  if not beh["cid"]:
    return gates(beh, job, ix)
  c = job["data"][beh["cid"] - 1]
  where = f"{ {k: v for k, v in c.items() if k not in ('wx', 'wh', 'bias', 'xs')} }, case {beh['cid']}: "
  salt, H = c["salt"], c["hidden"]
  xs = jnp.asarray(np.array(c["xs"]).reshape((len(c["xs"]),) + lead(c) + (c["inputs"],)), jnp.float32)
  two = c["kind"] in ("lstm", "conv")
  arr = lambda v: jnp.asarray(np.array(v).reshape(lead(c) + (H,)) / 2, jnp.float32)

  def f(xs):
    core = make(c)
    first = core.initial_state(c["batch"] or None)
    s = first
    if c["given"]:
      s = hk.LSTMState(arr(c["h0"]), arr(c["c0"])) if two else arr(c["h0"])
    if salt % 4 == 1 and not c["given"]:
      y, s = hk.dynamic_unroll(core, xs, s)
      return first, y, s, None
    if salt % 4 == 3 and not c["given"]:
      y, s = hk.static_unroll(core, xs, s)
      return first, y, s, None
    ys, ss = [], []
    for x in xs:
      y, s = core(x, s)
      ys.append(y)
      ss.append(s)
    return first, jnp.stack(ys), s, ss
  t = hk.without_apply_rng(hk.transform(f))
  params = t.init(jax.random.PRNGKey(salt), xs)
  want = weights(c)
  shapes = lambda p: {(m, k): tuple(np.shape(v)) for m, d in p.items() for k, v in d.items()}
  if shapes(params) != shapes(want):
    return "params", where + f"parameters {shapes(params)}, should be {shapes(want)}"
  if c["kind"] == "gru" and salt % 2:
    for k, v in zip(("w_i", "w_h", "b"), INITS):
      if np.any(np.asarray(params["c"][k]) != v):
        return "params", where + f"{k} is not initialized as asked"
  for (m, k) in shapes(params):
    if k == "b" and not (c["kind"] == "gru" and salt % 2) and np.any(np.asarray(params[m][k])):
      return "params", where + f"{m}/{k} does not start at zero"
  first, ys, last, ss = (jax.jit(t.apply) if salt % 5 == 0 else t.apply)(want, xs)
  exp = expected(c, beh)
  shape = lead(c) + (H,)

  def same(got, e):
    return got.shape == shape and np.allclose(np.asarray(got, np.float64).reshape(-1), e, rtol=1e-4, atol=1e-4 * (1 + np.abs(e).max()))

  def state(s, e):
    if two:
      return isinstance(s, hk.LSTMState) and same(s.hidden, e["h"]) and same(s.cell, e["c"])
    return same(s, e["h"])
  for v in jax.tree_util.tree_leaves(first):
    if v.shape != shape or np.any(np.asarray(v)):
      return "initial", where + f"the initial state is {v.tolist()}"
  for n, e in enumerate(exp):
    if not same(ys[n], e["h"]):
      return "output", where + f"step {n} gives {ys[n].tolist()}, should be {e['h'].tolist()}"
    if ss is not None and not state(ss[n], e):
      return "state", where + f"after step {n}: {ss[n]}, should be {e}"
  if not state(last, exp[-1]):
    return "state", where + f"ends with {last}, should be {exp[-1]}"
  return misuse() if beh["cid"] == 1 else None


def misuse():
  for core in (hk.LSTM, hk.GRU):
    for shape in ((2, 2, 2), ()):
      try:
        hk.testing.transform_and_run(lambda: core(2)(jnp.ones(shape), core(2).initial_state(2)))()
        return "misuse", f"{core.__name__} accepts an input of shape {shape}"
      except ValueError:
        pass
  return None


BIG = 60.
RUN = {}


def gates(beh, job, ix):
  """Saturated gates: cells count exactly."""
  kind, hist = job["core"], beh["hist"]
  if kind == "lstm":
    f = lambda x, s: hk.LSTM(1, name="c")(x, s)
    w = np.zeros((5, 4))
    w[:4] = np.eye(4) * BIG           # inputs in the documented order of slices
    params = {"c/linear": dict(w=jnp.asarray(w, jnp.float32), b=jnp.zeros(4))}
    ins = lambda p: [p["i"], p["g"], p["f"], p["o"]]
    s = hk.LSTMState(jnp.ones([1]) * .5, jnp.ones([1]) * hist[0]["was"]["c"])
  elif kind == "gru":
    f = lambda x, s: hk.GRU(1, name="c")(x, s)
    params = {"c": dict(w_i=jnp.eye(3) * BIG, w_h=jnp.asarray([[0, 0, 4 * BIG]], jnp.float32), b=jnp.zeros(3))}
    ins = lambda p: [p["z"], p["r"], p["a"]]
    s = jnp.ones([1]) * hist[0]["was"]["h"]
  else:
    f = lambda x, s: hk.VanillaRNN(1, double_bias=False, name="c")(x, s)
    params = {"c/linear": dict(w=jnp.ones([1, 1]) * 2, b=jnp.ones([1])), "c/linear_1": dict(w=-jnp.ones([1, 1]))}
    ins = lambda p: [p["x"]]
    s = jnp.ones([1]) * hist[0]["was"]["h"]
  key = kind
  if key not in RUN:
    RUN[key] = jax.jit(hk.without_apply_rng(hk.transform(f)).apply)
  for n, h in enumerate(hist):
    y, s = RUN[key](params, jnp.asarray(ins(h["p"]), jnp.float32), s)
    e = h["st"]
    cell = float(s.cell[0]) if kind == "lstm" else 0
    want = e["open"] * np.tanh(e["c"]) if kind == "lstm" else e["h"]
    new = float(s.hidden[0]) if kind == "lstm" else float(s[0])
    if abs(cell - e["c"]) > 1e-4 or abs(float(y[0]) - want) > 1e-4 or new != float(y[0]):
      return "gates", f"{kind} step {n} of {hist}: output {y.tolist()}, cell {cell}, should be {want}, {e['c']}"
  return None
