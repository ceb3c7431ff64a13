"""Replays HkBatchNorm behaviours on BatchNorm."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

MEMO = {}
FNS = {}


def num(q):
  return q[0] / q[1]


def make(c, runs):
  key = str((c, runs))
  if key not in FNS:
    def f(xs):
      kw = {}
      if c["axis"]:
        kw["axis"] = tuple(c["axis"]) if c["salt"] % 2 else list(c["axis"])
      if c["reps"] > 1:
        kw["cross_replica_axis"] = "i"
      m = hk.BatchNorm(c["cs"], c["co"], c["decay"] / 4, eps=c["eps"], data_format=c["fmt"], name="bn", **kw)
      out = []
      for x, r in zip(xs, runs):
        kw = {}
        for n, a in (("scale", r["sc"]), ("offset", r["of"])):
          if a:
            v = jnp.asarray(c["args"][a - 1], jnp.float32).reshape(c["wshape"])
            if c["salt"] % 3 == 0:      # anything that broadcasts will do
              while v.ndim and v.shape[0] == 1:
                v = v[0]
            kw[n] = v
        if r["k"] == "train":
          out.append(m(x, True, **kw) if c["salt"] % 2 else m(x, is_training=True, test_local_stats=False, **kw))
        else:
          out.append(m(x, is_training=False, test_local_stats=r["k"] == "local", **kw))
      return out
    FNS[key] = hk.transform_with_state(f)
  return FNS[key]


def close(a, b):
  return np.allclose(np.asarray(a, np.float64), b, rtol=1e-4, atol=2e-5)


def formula(els, eps):
  x, m, v, s, o = np.array([[num(q) for q in e] for e in els], np.float64).T
  return (x - m) / np.sqrt(v + eps) * s + o


def play(beh, job, ix):
  c = job["data"][beh["cid"] - 1]
  params = state = None
  key = str(beh["cid"]) + str(job["seed"])
  for n, h in enumerate(beh["hist"]):
    runs = h["runs"]
    key += str(runs)
    if key in MEMO:
      params, state = MEMO[key]
      if not h["ok"]:
        return None
      continue
    where = f"{ {k: v for k, v in c.items() if k not in ('xs', 'args')} } step {n} {h['kind']} {runs}: "
    xs = [jnp.asarray(c["xs"][r["x"] - 1], jnp.float32).reshape([c["reps"]] + c["shape"]) for r in runs]
    f = make(c, runs)
    if c["reps"] > 1:
      init = lambda k, x: f.init(k, x)
      init = jax.vmap(init, in_axes=(None, 0), axis_name="i")
      app = jax.vmap(f.apply, in_axes=(None, 0 if c["reps"] > 1 else None, None, 0), axis_name="i")
    else:
      xs = [x[0] for x in xs]
      init, app = f.init, f.apply
    if h["kind"] == "init":
      params, state = init(None, xs)
      if c["reps"] > 1:
        params = jax.tree_util.tree_map(lambda x: x[0], params)
      got = {(b, k): tuple(v.shape) for b, d in params.items() for k, v in d.items()}
      want = {("bn", k): tuple(c["wshape"]) for k, u in (("scale", c["cs"]), ("offset", c["co"])) if u}
      if got != want:
        return "params", where + f"parameters {got}, should be {want}"
      for k, v in (params.get("bn") or {}).items():
        if not np.all(np.asarray(v) == (1 if k == "scale" else 0)):
          return "params", where + f"{k} starts as {v}"
      p = hk.data_structures.to_mutable_dict(params)
      for k in (p.get("bn") or {}):
        p["bn"][k] = jnp.asarray(c[k], jnp.float32).reshape(c["wshape"])
      params = p
    else:
      old = state
      try:
        out, state = app(params, state, None, xs)
      except ValueError as e:
        if not h["ok"]:
          MEMO[key] = params, state
          return None
        return "raises", where + str(e)
      if not h["ok"]:
        return "result", where + "should fail: there are no averages"
      for o, w, r in zip(out, h["outs"], runs):
        o = np.asarray(o).reshape(c["reps"], -1)
        for rep in range(c["reps"]):
          e = formula(w[rep], c["eps"])
          if not close(o[rep], e):
            return "output", where + f"{r} gives {o[rep]}, should be {e}"
      if not any(r["k"] == "train" for r in runs):
        a = {(b, k): np.asarray(v) for b, d in old.items() for k, v in d.items()}
        z = {(b, k): np.asarray(v) for b, d in state.items() for k, v in d.items()}
        if a.keys() != z.keys() or any(not np.array_equal(a[k], z[k]) for k in a):
          return "changed", where + "the averages changed"
    s = h["st"]
    want = {}
    if s["made"]:
      for nm, e in (("mean_ema", s["m"]), ("var_ema", s["v"])):
        b = "bn/~/" + nm
        want[b, "counter"] = np.array([e[0]["c"]])
        want[b, "hidden"] = np.array([num(x["h"]) for x in e])
        want[b, "average"] = np.array([num(x["a"]) for x in e])
    got = {(b, k): np.asarray(v) for b, d in state.items() for k, v in d.items()}
    if set(got) != set(want):
      return "state", where + f"state {sorted(got)}, should be {sorted(want)}"
    for k, v in want.items():
      g = got[k].reshape(c["reps"], -1)
      for rep in range(c["reps"]):
        if not close(g[rep], v):
          return "state", where + f"{k} is {g[rep]}, should be {v}"
    MEMO[key] = params, state
  return None
