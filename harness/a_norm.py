"""Replays HkNorm on LayerNorm, InstanceNorm and GroupNorm."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np


def arr(t):
  return np.asarray(t["d"], np.float32).reshape(t["s"])


def build(c):
  salt = c["salt"]
  kw = {} if c["eps"] == 1e-5 and salt % 2 else dict(eps=c["eps"])
  given = [None if v == 99 else v for v in c["slice"]]
  a = slice(*given) if given else (tuple if salt % 2 else list)(c["axis"])
  if not given and len(c["axis"]) == 1 and salt % 3:
    a = c["axis"][0]
  if c["kind"] == "layer":
    return hk.LayerNorm(a, c["cs"], c["co"], name="n", **kw)
  if c["fmt"] != "channels_last" or salt % 3 == 0:
    kw["data_format"] = c["fmt"]
  if c["kind"] == "instance":
    return hk.InstanceNorm(create_scale=c["cs"], create_offset=c["co"], name="n", **kw)
  if not (c["slice"] == [1, 99] and salt % 2):
    kw["axis"] = a
  for k in ("cs", "co"):
    if not c[k] or salt % 2:
      kw["create_" + dict(cs="scale", co="offset")[k]] = c[k]
  return hk.GroupNorm(c["groups"], name="n", **kw)


def play(beh, job, ix):
  c = job["data"][beh["cid"] - 1]
  where = f"{ {k: v for k, v in c.items() if k not in ('calls', 'scale', 'offset')} }, case {beh['cid']}: "
  calls, hist = c["calls"][:len(beh["hist"])], beh["hist"]
  good = all(h["ok"] for h in hist)
  broken = []

  def f(xs):
    m = build(c)
    out = []
    for x, call in zip(xs, calls):
      kw = {k: jnp.asarray(arr(call[k][0])) for k in ("scale", "offset") if call[k]}
      if kw.keys() == {"scale", "offset"} and c["salt"] % 2:
        out.append(m(x, kw["scale"], kw["offset"]))
      else:
        out.append(m(x, **kw))
    return out
  t = hk.transform(f)
  xs = [jnp.asarray(arr(call["x"])) for call in calls]
  try:
    params = t.init(None, xs)
  except ValueError as e:
    return None if not good else ("raises", where + str(e))
  if not good:
    return "result", where + "should fail"
  want = {("n", k): c["channels"] for k, u in (("scale", c["cs"]), ("offset", c["co"])) if u}
  got = {(m, k): np.size(v) for m, d in params.items() for k, v in d.items()}
  if got != want:
    return "params", where + f"parameters of sizes {got}, should be {want} (shapes {jax.tree_util.tree_map(np.shape, params)})"
  new = {}
  for k, v in (params.get("n") or {}).items():
    if np.any(np.asarray(v) != (1 if k == "scale" else 0)):
      return "params", where + f"{k} starts as {v}"
    new.setdefault("n", {})[k] = jnp.asarray(c[k], jnp.float32).reshape(v.shape)
  app = jax.jit(t.apply) if c["salt"] % 4 == 0 else t.apply
  outs = app(new, None, xs)
  for call, h, o in zip(calls, hist, outs):
    x, n, s, q, scale, offset = np.array(h["out"], np.float64).T
    mean = s / n
    w = ((x - mean) / np.sqrt(q / n - mean**2 + c["eps"]) * scale + offset).reshape(call["x"]["s"])
    o = np.asarray(o, np.float64)
    if o.shape != w.shape or not np.allclose(o, w, rtol=1e-3, atol=1e-3 if c["eps"] < 1e-4 else 1e-4):
      return "output", where + f"call {call} gives {o.tolist()}, should be {w.tolist()}"
  return None
