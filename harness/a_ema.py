"""Replays HkEma behaviours on ExponentialMovingAverage and EMAParamsTree."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

FNS = {}


def num(q):
  return q[0] / q[1]


def vec(qs):
  return np.array([num(q) for q in qs], np.float64)


def inputs(mode, i, paths, order):
  if mode == "one":
    return jnp.asarray([i, (i * i - 3) / 2], jnp.float32)
  out = {}
  names = ["a/w", "a/b", "a/w_1", "a/~/b/w", "w/a", "a__b/w", "a/b__w"]
  for p in order(paths):
    k = names.index(p) + 1
    m, n = p.rsplit("/", 1)
    out.setdefault(m, {})[n] = jnp.asarray([i * k, (i - k) / 2], jnp.float32)
  return out


def make(cfg, mode, runs, extra):
  key = str((cfg, mode, runs, extra))
  if key not in FNS:
    kw = dict(zero_debias=cfg["debias"], warmup_length=cfg["warmup"])
    decay = num(cfg["decay"])
    def f(xs):
      if mode == "one":
        m = hk.ExponentialMovingAverage(jnp.float32(decay) if extra else decay, name="ema", **kw)
        if cfg["pre"]:
          m.initialize([2])
        if runs is None:
          return m.average
      else:
        m = hk.EMAParamsTree(decay, ignore_regex=cfg["rx"], name="ema", **kw)
      return [m(x, update_stats=u) if not (u and extra) else m(x) for x, (_, u) in zip(xs, runs)]
    FNS[key] = hk.transform_with_state(f)
  return FNS[key]


def close(a, b):
  return np.allclose(np.asarray(a, np.float64), b, rtol=2e-5, atol=2e-6)


MEMO = {}


def play(beh, job, ix):
  ix = sum(map(ord, str(beh["cfg"]))) + len(beh["hist"][0]["st"])
  cfg, mode = beh["cfg"], job["mode"]
  paths = sorted(beh["hist"][0]["st"])
  extra = ix % 3 == 0
  state = None
  key = str((cfg, paths))
  for n, h in enumerate(beh["hist"]):
    key += str((h["kind"], h["op"]))
    if key in MEMO:
      state = MEMO[key]
      continue
    runs = h["op"]["runs"]
    where = f"{cfg} step {n} {h['kind']} {runs}: "
    def order(ps):    # the order of keys is no part of a tree
      ps = sorted(ps)
      k = (ix + n * 3) % len(ps)
      return (ps[k:] + ps[:k])[::1 if (ix + n) % 2 else -1]
    xs = [inputs(mode, i, paths, order) for i, _ in runs]
    if mode == "tree" and extra:
      xs = [hk.data_structures.to_immutable_dict(x) for x in xs]
    if h["kind"] == "init":
      f = make(cfg, mode, runs, extra)
      params, state = f.init(None, xs)
      if params:
        return "params", where + "creates parameters"
    else:
      f = make(cfg, mode, None if h["kind"] == "read" else runs, extra)
      old = jax.tree_util.tree_map(np.asarray, hk.data_structures.to_mutable_dict(state))
      try:
        g = jax.jit(f.apply) if ix % 40 == 7 else f.apply
        out, new = g({}, state, None, xs)
      except ValueError as e:
        if h["r"] == "error":
          continue
        return "raises", where + f"{e}"
      if h["r"] == "error":
        return "read", where + "there is an average to read"
      if h["kind"] == "read":
        if not close(out, vec(h["r"])):
          return "average", where + f"{out}, should be {vec(h['r'])}"
      else:
        for o, r, x in zip(out, h["r"], xs):
          if mode == "one":
            if not close(o, vec(r["ema"])):
              return "output", where + f"{o}, should be {vec(r['ema'])}"
          else:
            got = {f"{m}/{k}": v for m, b in o.items() for k, v in b.items()}
            if sorted(got) != paths:
              return "structure", where + f"{sorted(got)}"
            if jax.tree_util.tree_structure(o) != jax.tree_util.tree_structure(
                hk.data_structures.to_immutable_dict(x)):
              return "structure", where + "the structure changed"
            for p in paths:
              if not close(got[p], vec(r[p])):
                return "output", where + f"{p}: {got[p]}, should be {vec(r[p])}"
      if not any(u for _, u in runs):
        for b in new:
          for k in new[b]:
            if k in old.get(b, {}) and not np.array_equal(np.asarray(new[b][k]), old[b][k]):
              return "changed", where + f"{b}/{k} changed without an update"
      state = new
    r = check(state, h["st"], mode, where)
    if r:
      return r
    MEMO[key] = state
  return None


def check(state, st, mode, where):
  """The averages kept are the specified ones, whatever their bundles are called."""
  def same(e, s):
    if int(e["counter"]) != s[0]["c"] or not close(e["hidden"], vec([x["h"] for x in s])):
      return False
    if s[0]["a"]:
      return "average" in e and close(e["average"], vec([x["a"] for x in s]))
    return "average" not in e
  left = dict(state)
  for p, s in st.items():
    if s[0]["n"]:
      continue
    for b, e in left.items():
      if same(e, s):
        del left[b]
        break
    else:
      return "state", where + f"no average is {s}, there are {hk.data_structures.to_mutable_dict(state)}"
  if left:
    return "state", where + f"there are averages {sorted(left)} for nothing"
  return None
