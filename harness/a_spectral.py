"""Replays HkSpectral behaviours on SpectralNorm and SNParamsTree."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

NAMES = ["a/w", "a/b", "a/w_1", "a/~/b/w", "w/a", "a__b/w", "a/b__w"]
EPS = [1e-4, .3]
FNS, MEMO = {}, {}


def value(mode, cfg, i, p):
  """The input numbered i (of the parameter p of a tree)."""
  k = 0 if mode == "one" else NAMES.index(p) + 1
  r = np.random.RandomState(100 * i + k)
  if mode == "one":
    shape = [(3, 2), (5, 2), (2, 2, 2), (2, 3, 2, 2), (2,), (), (1, 2)][i - 1]
  else:
    shape = (3,) if p == "a/b" and cfg["vec"] else (2, 2, k + 1) if p == "w/a" else (k % 3 + 1, k + 1)
  return np.asarray(r.uniform(.5, 1.5, shape) * r.choice([-1, 1], shape) * (1 + .3 * i), np.float32)


def tree(cfg, i, paths):
  out = {}
  for p in paths:
    m, n = p.rsplit("/", 1)
    out.setdefault(m, {})[n] = value("tree", cfg, i, p)
  return out


class Oracle:
  """Evaluates chains in float64 from a start vector."""

  def __init__(self, mode, cfg, p, u0):
    self.mode, self.cfg, self.p = mode, cfg, p
    self.u0 = np.asarray(u0, np.float64)
    self.memo = {}

  def at(self, chain):
    chain = tuple(chain)
    if not chain:
      return self.u0, None
    if chain not in self.memo:
      u, _ = self.at(chain[:-1])
      w = np.asarray(value(self.mode, self.cfg, chain[-1], self.p), np.float64)
      w = w.reshape(-1, w.shape[-1])
      eps = EPS[self.cfg["eps"] - 1]
      norm = lambda x: x / np.sqrt((x * x).sum() + eps)
      for _ in range(self.cfg["n"]):
        v = norm(u @ w.T)
        u = norm(v @ w)
      self.memo[chain] = u, (v @ w @ u.T)[0, 0]
    return self.memo[chain]


def make(cfg, mode, runs, salt):
  key = str((cfg, mode, runs, salt % 6))
  if key not in FNS:
    kw = dict(eps=EPS[cfg["eps"] - 1]) if cfg["eps"] != 1 or salt % 2 else {}
    if cfg["n"] != 1 or salt % 2:
      kw["n_steps"] = cfg["n"]

    def f(xs):
      if mode == "one":
        m = hk.SpectralNorm(name="sn", **kw)
        if runs is None:
          return m.u0, m.sigma
        outs = []
        for x, (_, u, strict) in zip(xs, runs):
          k = {} if u and salt % 3 else dict(update_stats=u)
          if strict:
            k["error_on_non_matrix"] = True
          outs.append(m(x, **k))
        return outs
      m = hk.SNParamsTree(ignore_regex=cfg["rx"], name="sn", **kw)
      return [m(x) if u and salt % 3 else m(x, update_stats=u) for x, (_, u, _) in zip(xs, runs)]
    FNS[key] = hk.transform_with_state(f)
  return FNS[key]


def close(a, b):
  return np.allclose(np.asarray(a, np.float64), b, rtol=1e-3, atol=1e-4)


def play(beh, job, ix):
  cfg, mode = beh["cfg"], job["mode"]
  paths = sorted(beh["hist"][0]["st"])
  salt = sum(map(ord, str(cfg))) + len(paths)
  state = oracles = None
  key = str((cfg, paths))
  for n, h in enumerate(beh["hist"]):
    if h["kind"] == "none":
      break
    runs = h["runs"]
    key += str((h["kind"], runs))
    if key in MEMO:
      state, oracles = MEMO[key]
      continue
    where = f"{cfg} {mode} {paths} step {n} {h['kind']} {runs}: "

    def order(ps):    # the order of keys is no part of a tree
      k = (salt + n * 3) % len(ps)
      return (ps[k:] + ps[:k])[::1 if (salt + n) % 2 else -1]
    xs = [value(mode, cfg, r[0], None) if mode == "one" else tree(cfg, r[0], order(paths)) for r in runs]
    if mode == "tree" and salt % 3 == 0:
      xs = [hk.data_structures.to_immutable_dict(x) for x in xs]
    f = make(cfg, mode, None if h["kind"] == "read" else runs, salt)
    try:
      if h["kind"] == "init":
        out, state = f.init(jax.random.PRNGKey(salt), xs)
        if out:
          return "params", where + "creates parameters"
        old = None
      else:
        old = jax.tree_util.tree_map(np.asarray, hk.data_structures.to_mutable_dict(state))
        out, state = (jax.jit(f.apply) if salt % 12 == 7 else f.apply)({}, state, None, xs)
    except ValueError as e:
      if h["ok"]:
        return "raises", where + str(e)
      MEMO[key] = state, oracles
      continue
    if not h["ok"]:
      return "result", where + "should fail"
    if oracles is None:
      oracles = match(state, h["st"], mode, cfg)
      if oracles is None:
        return "state", where + f"the state after init is {jax.tree_util.tree_map(np.asarray, hk.data_structures.to_mutable_dict(state))}, should be {h['st']}"
    if h["kind"] == "read":
      w = h["st"]["sn"]
      u, s = oracles["sn"][0].at(w["u"])[0], oracles["sn"][0].at(w["s"])[1] if w["s"] else 1.
      if not close(out[0], u) or not close(out[1], s):
        return "read", where + f"{out}, should be {u}, {s}"
    elif h["kind"] == "apply":
      for o, w, x in zip(out, h["outs"], xs):
        got = {"sn": o} if mode == "one" else {f"{m}/{k}": v for m, b in o.items() for k, v in b.items()}
        if sorted(got) != paths:
          return "structure", where + f"{sorted(got)}"
        for p in paths:
          e = np.asarray(value(mode, cfg, w[p]["id"], p), np.float64)
          if w[p]["by"]:
            e = e / oracles[p][0].at(w[p]["by"])[1]
          if got[p].shape != e.shape or not close(got[p], e):
            return "output", where + f"{p}: {got[p]}, should be {e}"
      if not any(r[1] for r in runs):
        for b in old:
          for k in old[b]:
            if not np.array_equal(np.asarray(state[b][k]), old[b][k]):
              return "changed", where + f"{b}/{k} changed without an update"
    for p, s in h["st"].items():
      if s["new"]:
        continue
      o, b = oracles[p]
      e = state[b]
      if not close(e["u0"], o.at(s["u"])[0]):
        return "state", where + f"u0 of {p} is {e['u0']}, should be {o.at(s['u'])[0]}"
      if s["has"] != ("sigma" in e):
        return "state", where + f"sigma of {p}: {'sigma' in e}, should be {s['has']}"
      if s["has"] and not close(e["sigma"], o.at(s["s"])[1] if s["s"] else 1.):
        return "state", where + f"sigma of {p} is {e['sigma']}"
    if len(state) != sum(not s["new"] for s in h["st"].values()):
      return "state", where + f"there are {sorted(state)}"
    MEMO[key] = state, oracles
  return None


def match(state, st, mode, cfg):
  """Which bundle holds which statistics, whatever it is called."""
  out, left = {}, dict(state)
  for p, s in st.items():
    if s["new"]:
      continue
    last = value(mode, cfg, 1, p).shape[-1]
    for b, e in left.items():
      if "u0" not in e or e["u0"].shape != (1, last):
        continue
      o = Oracle(mode, cfg, p, e["u0"])
      if not s["has"] or "sigma" in e and close(e["sigma"], o.at(s["s"])[1]):
        out[p] = o, b
        del left[b]
        break
    else:
      return None
  return out
