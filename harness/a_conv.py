"""Replays HkConvCases on the convolution and pooling layers."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

FORMATS = dict(last=["channels_last", "N...C", {1: "NWC", 2: "NHWC", 3: "NDHWC"}],
               first=["channels_first", "NC...", {1: "NCW", 2: "NCHW", 3: "NCDHW"}])


def arr(t, dtype=np.float32):
  return np.asarray(t["d"], dtype).reshape(t["s"])


def one(c, xs):
  """A number instead of a sequence of equal ones, now and then."""
  if len(set(xs)) == 1 and c["salt"] % 2:
    return xs[0] if c["salt"] % 3 else [xs[0]]
  return (list, tuple)[c["salt"] % 2](xs)


def paddings(c, n):
  ks = [p["k"] for p in c["P"]]
  if ks[0] in ("SAME", "VALID"):
    return ks[0].lower() if c.get("lower") and c["kind"] == "conv" else ks[0]
  if "pair" in ks:
    return [(p["lo"], p["hi"]) for p in c["P"]]
  fns = [getattr(hk.pad, k[:-2]) for k in ks]
  return fns[0] if len(set(ks)) == 1 and c["salt"] % 2 else fns


def layer(c, nd, fmt):
  kw = dict(padding=paddings(c, nd), stride=one(c, c["S"]), with_bias=c["bias"], data_format=fmt, name="m")
  if c["S"] == [1] * nd and c["salt"] % 4 == 0:
    del kw["stride"]
  ks = one(c, c["K"])
  if c["kind"] == "depthwise":
    return hk.DepthwiseConv2D(c["mult"], ks, **kw)
  if c["kind"] == "separable":
    return hk.SeparableDepthwiseConv2D(c["mult"], ks, **kw)
  cls = [hk.ConvND, hk.Conv1D, hk.Conv2D, hk.Conv3D] if c["kind"] == "conv" else [
      hk.ConvNDTranspose, hk.Conv1DTranspose, hk.Conv2DTranspose, hk.Conv3DTranspose]
  if c["mask"]:
    kw["mask"] = np.asarray(c["mask"], np.float32).reshape(c["w"]["s"])
  if c["kind"] == "conv":
    kw.update(rate=one(c, c["D"]), feature_group_count=c["G"])
  elif c["out"]:
    kw["output_shape"] = one(c, c["out"])
  cout = c["w"]["s"][-1] if c["kind"] == "conv" else c["w"]["s"][-2]
  if c["salt"] % 5 == 0:
    return cls[0](nd, cout, ks, **kw)
  return cls[nd](cout, ks, **kw)


def pool(c, x):
  if "how" not in c:
    w, s, kw = tuple(c["W"]), tuple(c["S"]), {}
  else:
    cut = lambda k: c["int" + k] if c["how"] == "int" else tuple(c[k][len(c[k]) - c["int" + k]:])
    w, s, kw = cut("W"), cut("S"), dict(channel_axis=None if c["chan"] == 99 else c["chan"])
    if c["chan"] == -1 and c["salt"] % 2:
      kw = {}
  if c["salt"] % 3:
    return (hk.max_pool if c["kind"] == "max" else hk.avg_pool)(x, w, s, c["pad"], **kw)
  return hk.testing.transform_and_run(
      lambda: (hk.MaxPool if c["kind"] == "max" else hk.AvgPool)(w, s, c["pad"], **kw)(x))()


def pads_of(c):
  """The padding functions and what they are made of."""
  for a, p in enumerate(c["P"]):
    if p["k"].endswith("()"):
      e = (c["K"][a] - 1) * c["D"][a] + 1
      want = dict(valid=(0, 0), same=((e - 1) // 2, e // 2), full=(e - 1, e - 1), causal=(e - 1, 0),
                  reverse_causal=(0, e - 1))[p["k"][:-2]]
      f = getattr(hk.pad, p["k"][:-2])
      if tuple(f(e)) != want:
        return f"{p['k']} of {e} is {f(e)}"
      got = hk.pad.create(f, c["K"], c["D"], len(c["K"]))[a]
      if tuple(got) != want:
        return f"create gives {got} for {p['k']} of {e}"
  return None


def play(beh, job, ix):
  c = beh["c"][0] if beh["cid"] == 0 else job["data"][beh["cid"] - 1]
  where = str({k: v for k, v in c.items() if k not in ("x", "w", "w2", "b", "mask")}) + f" x {c['x']['s']}: "
  x = arr(c["x"])
  if c["kind"] in ("max", "avg"):
    got = np.asarray(pool(c, jnp.asarray(x)))
    y = np.asarray(beh["y"]["d"], np.float64)
    if c["kind"] == "avg":
      y = y[..., 0] / y[..., 1]
    y = y.reshape(beh["y"]["s"])
    if got.shape != y.shape or not np.allclose(got, y, rtol=1e-5, atol=1e-5):
      return "pool", where + f"{got.tolist()} should be {y.tolist()}"
    return None
  bad = pads_of(c)
  if bad:
    return "padding", where + bad
  nd = x.ndim - 2
  first = c.get("fmt", "last") == "first"
  fmt = FORMATS["first" if first else "last"][c["salt"] % 3]
  if isinstance(fmt, dict):
    fmt = fmt[nd]
  batched = c.get("batched", True)
  xx = np.moveaxis(x, -1, 1) if first else x
  if not batched:
    xx = xx[0]
  f = hk.transform(lambda x: layer(c, nd, fmt)(x))
  cout = len(c["b"]) if c["b"] else 1
  bshape = (cout,) + (1,) * nd if first else (cout,)
  w, b = arr(c["w"]), np.asarray(c["b"][:cout], np.float32).reshape(bshape)
  try:
    params = f.init(jax.random.PRNGKey(0), jnp.asarray(xx))
  except ValueError as e:
    return None if not beh["ok"] else ("raises", where + str(e))
  if not beh["ok"]:
    return "result", where + "should fail: the output shape does not fit"
  if c["kind"] == "separable":
    want = {"m/~/depthwise_conv2_d": {"w": w}, "m/~/depthwise_conv2_d_1": {"w": arr(c["w2"])}}
    if c["bias"]:
      want["m/~/depthwise_conv2_d_1"]["b"] = b
  else:
    want = {"m": dict(w=w, **(dict(b=b) if c["bias"] else {}))}
  shapes = lambda p: {(m, k): tuple(v.shape) for m, d in p.items() for k, v in d.items()}
  if shapes(params) != shapes(want):
    return "params", where + f"parameters {shapes(params)}, should be {shapes(want)}"
  for m, d in params.items():
    if "b" in d and np.any(np.asarray(d["b"])):
      return "params", where + "bias does not start at zero"
  want = jax.tree_util.tree_map(jnp.asarray, want)
  app = jax.jit(f.apply) if c["salt"] % 7 == 0 else f.apply
  got = np.asarray(app(want, None, jnp.asarray(xx)))
  y = arr(beh["y"])
  y = np.moveaxis(y, -1, 1) if first else y
  if not batched:
    y = y[0]
  if got.shape != y.shape or not np.array_equal(got, y):
    return "output", where + f"{got.tolist()} should be {y.tolist()}"
  return None
