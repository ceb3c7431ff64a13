"""Replays HkInit on the initializers and dropout."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

T = 0.87962566103423978 ** 2     # variance of a standard normal cut at 2
KURT = dict(normal=3., uniform=1.8, trunc=2.366, scaled=2.366)
I = hk.initializers


def make(b):
  s, k, what = b["scale"] / 4, b["kind"], b["what"]
  if what == "constant":
    return I.Constant(s) if k else I.Constant(jnp.full(b["shape"][-1:], s))
  if what == "identity":
    return (I.Identity() if s == 1 else I.Identity(s)) if k else I.Identity(jnp.asarray(s))
  if what == "normal":
    return I.RandomNormal() if (s, k) == (1, 0) else I.RandomNormal(s) if k == 0 else I.RandomNormal(mean=k / 4, stddev=s)
  if what == "trunc":
    return I.TruncatedNormal() if (s, k) == (1, 0) else I.TruncatedNormal(s, k / 4)
  if what == "range":
    return I.RandomUniform() if (s, k) == (1, 0) else I.RandomUniform(k / 4, k / 4 + s)
  if what == "variance":
    dist = ["normal", "uniform", "truncated_normal"][k]
    if (s, b["mode"], k) == (1, "fan_in", 2):
      return I.VarianceScaling()
    return I.VarianceScaling(s, b["mode"], dist.upper() if b["scale"] == 1 else dist)
  if what == "uniscale":
    return I.UniformScaling() if s == 1 else I.UniformScaling(s)
  if k == 0:
    return I.Orthogonal() if s == 1 else I.Orthogonal(s)
  return I.Orthogonal(s, axis=k - 1 if k % 2 else k - 1 - len(b["shape"]))


def rat(q):
  return q[0] / q[1]


def moments(x, r):
  """Wrong mean, variance or shape of the distribution of many elements?"""
  n, mean, var = x.size, rat(r["mean"]), rat(r["var"])
  if r["dist"] == "trunc":
    var *= T
  sd = np.sqrt(var)
  if r["bound2"][0]:
    bound = np.sqrt(rat(r["bound2"]) / (T if r["dist"] == "scaled" else 1))
    far = np.abs(x - mean).max(initial=0)
    if far > bound * 1.01 + 1e-3 * abs(mean):
      return f"an element is {far} from the middle, the bound is {bound}"
    if n >= 2000 and far < .9 * bound:
      return f"of {n} elements none is further than {far} from the middle, the bound is {bound}"
  if n < 500:
    return None
  if abs(x.mean() - mean) > 6 * sd / np.sqrt(n) + 2e-3 * abs(mean):
    return f"the mean of {n} elements is {x.mean()}, should be {mean}"
  tol = .15 if n >= 2000 else .3
  if not 1 - tol < x.var() / var < 1 + tol:
    return f"the variance of {n} elements is {x.var()}, should be {var}"
  z = (x - x.mean()) / x.std()
  if n >= 2000 and abs((z ** 4).mean() - KURT[r["dist"]]) > .5:
    return f"not {r['dist']}: kurtosis {(z ** 4).mean()}"
  if n < 20000 and len(np.unique(x)) < .9 * n:
    return "elements repeat"
  y = x.reshape(-1)
  if abs(np.corrcoef(y[1:], y[:-1])[0, 1]) > 6 / np.sqrt(n):
    return "neighbours are correlated"
  return None


def layer(b):
  *kernel, i, o = b["shape"]
  nd, g, name, first = len(kernel), b["scale"], b["layer"], b["mode"] == "first"
  fmt = ("channels_first" if g == 1 else "NC" + "DHW"[3 - nd:]) if first else "channels_last"
  def image(c, extra=0):
    sizes = [n + extra for n in kernel]
    return jnp.ones([2, c, *sizes] if first else [2, *sizes, c])
  fns = dict(
      linear=lambda: hk.Linear(o)(jnp.ones([2, i])),
      conv=lambda: hk.ConvND(nd, o, kernel, data_format=fmt, feature_group_count=g)(image(i * g)),
      transpose=lambda: hk.ConvNDTranspose(nd, o, kernel, data_format=fmt)(image(i)),
      depthwise=lambda: hk.DepthwiseConv2D(o, kernel, data_format="NCHW" if first else "NHWC")(image(i)),
      separable=lambda: hk.SeparableDepthwiseConv2D(o, kernel, data_format="NCHW" if first else "NHWC")(image(i)),
      embed=lambda: hk.Embed(i, o)(jnp.zeros([2], jnp.int32)),
      attention=lambda: hk.MultiHeadAttention(4, 20, g / 4, value_size=25, model_size=30)(
          jnp.ones([2, 3, i]), *(jnp.ones([2, 4, o]),) * 2),
      lstm=lambda: hk.LSTM(o)(jnp.ones([2, i]), hk.LSTMState(*(jnp.ones([2, o]),) * 2)),
      gru=lambda: hk.GRU(o, w_i_init=jnp.ones if first else None)(jnp.ones([2, i]), jnp.ones([2, o])),
      rnn=lambda: hk.VanillaRNN(o, double_bias=first)(jnp.ones([2, i]), jnp.ones([2, o])),
      convlstm=lambda: [hk.Conv1DLSTM, hk.Conv2DLSTM, hk.Conv3DLSTM][nd - 1](kernel, o, kernel)(
          image(i), hk.LSTMState(image(o), image(o))),
      layernorm=lambda: hk.LayerNorm(-1, True, True)(image(o)),
      batchnorm=lambda: hk.BatchNorm(True, True, .9, data_format=fmt)(image(o), True),
      groupnorm=lambda: hk.GroupNorm(g, data_format=fmt)(image(o)),
      bias=lambda: hk.Bias(bias_dims=[-1])(jnp.ones([2, o])),
      mlp=lambda: hk.nets.MLP([50, o])(jnp.ones([2, i])))
  p, _ = jax.jit(hk.transform_with_state(fns[name]).init)(jax.random.PRNGKey(b["kind"]))
  want = {(x["path"], x["name"]): x for x in b["params"]}
  got = {(m, n): np.asarray(v) for m, d in p.items() for n, v in d.items()}
  where = f"{name} of shape {b['shape']} {b['mode']} {g}: "
  if set(want) != set(got):
    return "layer", where + f"creates {sorted(got)}, should create {sorted(want)}"
  for k, x in want.items():
    v, r = got[k], x["res"]
    if list(v.shape) != x["shape"]:
      return "layer", where + f"{k} is of shape {v.shape}, should be {x['shape']}"
    bad = moments(v.astype(np.float64), r) if r["dist"] != "exact" else None
    if r["dist"] == "exact" and not np.array_equal(v.reshape(-1), np.array(r["exact"]) / 4):
      bad = f"is {v}, should be filled with {r['exact'][:1]} / 4"
    if bad:
      return "layer", where + f"{k}: {bad}"
  return None


def play(b, job, ix):
  if b["what"] == "layers":
    return layer(b)
  if b["what"] == "dropout":
    return dropout(b)
  r, shape, f32 = b["res"], b["shape"], jnp.float32
  where = f"{b['what']} scale {b['scale']}/4 {b['mode']} kind {b['kind']} shape {shape}: "
  def f(shape, dtype):
    ini = make(b)
    w = hk.get_parameter("w", shape, dtype, init=ini)
    v = ini(tuple(shape), dtype)
    return w, v, hk.next_rng_key()
  def run(dtype=f32, seed=3, jit=False):
    t = hk.transform(lambda: f(shape, dtype))
    key = jax.random.PRNGKey(seed)
    def both(key):
      p = t.init(key)
      return p, t.apply(p, key)
    p, (w, v, key) = (jax.jit(both) if jit else both)(key)
    return np.asarray(p["~"]["w"].astype(f32)), v, key, p["~"]["w"].dtype
  try:
    w, v, key, dtype = run()
  except ValueError:
    return None if r["err"] else ("error", where + "raises ValueError")
  if r["err"]:
    return "error", where + "succeeds, should raise ValueError"
  if w.shape != tuple(shape) or v.shape != tuple(shape) or dtype != f32 or v.dtype != f32:
    return "shape", where + f"gives {dtype}{list(w.shape)} and {v.dtype}{list(v.shape)}"
  v = np.asarray(v)
  # At apply only the direct call of the initializer draws keys.
  k = jax.random.PRNGKey(3)
  for _ in range(r["keys"] + 1):
    k, sub = jax.random.split(k)
  if not np.array_equal(sub, key):
    return "keys", where + f"does not draw {r['keys']} keys"
  # The rest takes turns over the cases.
  turn = (ix + job.get("turn", 0)) % 3 if job["turns"] else None
  halves = [jnp.float16, jnp.bfloat16] if turn is None else [jnp.bfloat16] if turn else [jnp.float16]
  for half in halves if r["dist"] != "orthogonal" and turn != 1 else []:
    h, hv, _, dtype = run(half)
    if dtype != half or hv.dtype != half or h.shape != tuple(shape):
      return "type", where + f"gives {dtype}{list(h.shape)} when asked for {half.__name__}"
    if r["dist"] == "exact":
      if not np.array_equal(h, w):
        return "type", where + "differs by type"
  if r["dist"] == "exact":
    want = (np.array(r["exact"]) / 4).reshape(shape)
    for x in (w, v):
      if not np.array_equal(x, want):
        return "value", where + f"gives {x.tolist()}, should be {want.tolist()}"
    return misuse() if b["shape"] == [3, 4] else None
  if w.size and turn in (1, None):
    w2, v2, _, _ = run(seed=3, jit=True)
    if not (np.allclose(w, w2, atol=1e-5) and np.allclose(v, v2, atol=1e-5)):
      return "key", where + "does not depend on the key alone"
  if w.size and turn in (2, None):
    if rat(r["var"]) and w.size > 1:
      w3, _, _, _ = run(seed=4)
      if np.allclose(w, w3):
        return "key", where + "does not depend on the key"
  if r["dist"] == "orthogonal":
    for x in (w, v):
      m = np.moveaxis(x, r["axis"], 0).reshape(shape[r["axis"]], -1)
      m = m if r["rows"] else m.T
      want = rat(r["var"]) * np.eye(m.shape[0])
      if not np.allclose(m @ m.T, want, atol=1e-4 * (1 + rat(r["var"]))):
        return "orthogonal", where + f"the {'rows' if r['rows'] else 'columns'} are not orthonormal"
    if w.size >= 300:
      if abs(w.mean()) > 6 * np.abs(w).mean() / np.sqrt(w.size) or not .3 < (w > 0).mean() < .7:
        return "orthogonal", where + "the signs are not balanced"
    return None
  for x in (w, v):
    bad = moments(np.asarray(x, np.float64), r)
    if bad:
      return "moments", where + bad
  return None


def misuse():
  for bad in (lambda: I.VarianceScaling(-1.), lambda: I.VarianceScaling(mode="fan"), lambda: I.VarianceScaling(distribution="x")):
    try:
      bad()
      return "misuse", "VarianceScaling accepts invalid options"
    except ValueError:
      pass
  return None


def dropout(b):
  r, rate, shape = b["res"], b["scale"] / 4, b["shape"]
  where = f"dropout rate {rate} shape {shape}: "
  n = int(np.prod(shape))
  x = jnp.asarray((np.arange(n) % 50 - 20.5).reshape(shape), jnp.float32)
  keys = [jax.random.PRNGKey(i) for i in (1, 1, 2)]
  try:
    ys = [np.asarray(hk.dropout(k, rate, x)) for k in keys[:2]] + [np.asarray(jax.jit(lambda k, x: hk.dropout(k, rate, x))(keys[2], x))]
  except ValueError:
    return None if r["err"] else ("error", where + "raises ValueError")
  if r["err"]:
    return "error", where + "succeeds, should raise ValueError"
  keep = rat(r["mean"])
  for y in ys:
    if y.shape != tuple(shape) or y.dtype != np.float32:
      return "shape", where + f"gives {y.dtype}{list(y.shape)}"
    full = np.asarray(x) / keep
    if not np.all((y == 0) | np.isclose(y, full, rtol=1e-6)):
      return "value", where + f"gives {y.tolist()[:20]}"
    if keep == 1 and np.any(y == 0):
      return "value", where + "drops elements"
    if n >= 2000 and keep < 1:
      got = (y != 0).mean()
      if abs(got - keep) > 6 * np.sqrt(keep * (1 - keep) / n):
        return "share", where + f"keeps {got} of the elements"
      kept = (y != 0).reshape(-1).astype(float)
      for lag in (1, shape[-1] if shape[-1] < n else 2):
        if abs(np.corrcoef(kept[lag:], kept[:-lag])[0, 1]) > 6 / np.sqrt(n):
          return "share", where + "elements are not dropped independently"
  if not np.array_equal(ys[0], ys[1]):
    return "key", where + "is not a function of the key"
  if n > 30 and 0 < keep < 1 and np.array_equal(ys[0], ys[2]):
    return "key", where + "does not depend on the key"
  return None
