"""Replays HkMapping behaviours on the library's mappings."""
import copy
import pickle
from collections.abc import Mapping

import haiku as hk
import jax

ds = hk.data_structures


FlatMapping = type(ds.to_immutable_dict({}))


def build(v):
  if v[0] == "L":
    return None if v[1] == -1 else v[1]
  return {k: build(x) for k, x in v[1]}


def want(v):
  """The specification's value as plain nested dicts."""
  if v[0] == "L":
    return None if v[1] == -1 else v[1]
  return {k: want(x) for k, x in v[1]}


def plain(x, imm, bad):
  if isinstance(x, Mapping):
    if isinstance(x, dict) == imm:
      bad.append("a nested mapping is " + ("mutable" if imm else "not a dictionary"))
    return {k: plain(x[k], imm or not isinstance(x, dict), bad) for k in list(x)}
  return x


def r_items(x):
  return dict(x.items())


def r_keys(x):
  return {k: x[k] for k in x.keys()}


def r_iter(x):
  return {k: x[k] for k in x}


def r_attr(x):
  return {k: getattr(x, k) for k in x}


def r_get(x):
  if x.get("nokey", 5) != 5 or x.get("nokey") is not None:
    return {"get": "default not returned"}
  return {k: x.get(k) for k in x}


def r_len(x):
  n = len(x)
  if n != len(list(x)) or bool(x) != (n > 0):
    return {"len": n}
  return r_items(x)


def r_in(x):
  ks = [k for k in ("w", "b", "a/b", "zz") if k in x]
  if "zz" in ks or len(ks) != len(x):
    return {"contains": ks}
  return {k: x[k] for k in ks}


def r_values(x):
  return dict(zip(x.keys(), x.values()))


def r_flat(x):
  leaves, tree = jax.tree_util.tree_flatten(x)
  return jax.tree_util.tree_unflatten(tree, leaves)


def r_str(x):
  s = str(x)
  if s != repr(x) or any(repr(k) not in s for k in x):
    return {"str": s}
  return r_items(x)


def r_star(x):
  return {**x}


def r_miss(x):
  for f, e in ((lambda: x["zz"], KeyError), (lambda: x.zz, AttributeError)):
    try:
      f()
      return {"missing": "no error"}
    except e:
      pass
  return r_items(x)


def r_mut(x):
  return ds.to_mutable_dict(x)


ROUTES = [r_items, r_keys, r_iter, r_attr, r_get, r_len, r_in, r_values, r_flat, r_str, r_star, r_miss, r_mut]


class Player:

  def __init__(self, n, salt):
    self.slot = {i: None for i in range(1, n + 1)}
    self.at = salt

  def see(self, exp, bad):
    for i, (kind, val) in enumerate(exp, 1):
      x = self.slot[i]
      if kind == "none":
        if x is not None:
          bad.append(f"variable {i}: unexpected")
        continue
      if (kind == "imm") == isinstance(x, dict) or not isinstance(x, Mapping):
        bad.append(f"variable {i} is a {type(x).__name__}, should be {kind}")
        continue
      w = want(val)
      if kind == "imm":
        for j in range(2):
          f = ROUTES[(self.at * 5 + i + j * 7) % len(ROUTES)]
          got = f(x)
          p = {k: plain(v, f is not r_mut, bad) for k, v in got.items()}
          if p != w:
            bad.append(f"variable {i} is {p} through {f.__name__}, should be {w}")
        self.at += 1
        # The flattened form says the same.
        if jax.tree_util.tree_leaves(x) != jax.tree_util.tree_leaves(w):
          bad.append(f"variable {i} has leaves {jax.tree_util.tree_leaves(x)}, should be those of {w}")
        if not (x == w) or (x != w) or not (w == x):
          bad.append(f"variable {i} is not equal to {w}")
      else:
        p = plain(x, False, [])
        if p != w:
          bad.append(f"dictionary {i} is {p}, should be {w}")

  def do(self, op):
    k, sl = op["k"], self.slot
    s = op["s"]
    f = sl.get(op.get("f"))
    if k == "new":
      sl[s] = build(op["v"])
    elif k == "imm":
      sl[s] = ds.to_immutable_dict(f)
    elif k == "flat":
      sl[s] = FlatMapping(f) if op["how"] == "dict" else FlatMapping(list(f.items()))
    elif k == "mut":
      sl[s] = ds.to_mutable_dict(f)
    elif k == "pickle":
      sl[s] = pickle.loads(pickle.dumps(f))
    elif k == "deepcopy":
      sl[s] = copy.deepcopy(f)
    elif k == "unflatten":
      leaves, tree = jax.tree_util.tree_flatten(f)
      leaves = list(leaves)
      sl[s] = jax.tree_util.tree_unflatten(tree, leaves)
      leaves[:] = [99] * len(leaves)
    elif k == "rebuild":
      d = ds.to_mutable_dict(f)
      sl[s] = ds.to_immutable_dict(d)
      for x in d.values():
        if isinstance(x, dict):
          x.clear()
      d.clear()
    elif k == "treemap":
      sl[s] = jax.tree_util.tree_map(lambda x: x, f)
    elif k == "retree":
      how = op["how"]
      mk = {"list": lambda x: [x, x], "tuple": lambda x: (x,), "dict": lambda x: {"q": x, "r": [x]},
            "imm": lambda x: ds.to_immutable_dict({"q": x})}[how]
      def is_new(t):
        if how == "list":
          return type(t) is list
        if how == "tuple":
          return type(t) is tuple
        return isinstance(t, Mapping) and "q" in t
      m = jax.tree_util.tree_map(mk, f)
      ref = jax.tree_util.tree_map(mk, ds.to_mutable_dict(f))
      if m != ref or jax.tree_util.tree_leaves(m) != jax.tree_util.tree_leaves(ref):
        return f"{m} instead of {ref}"
      if how != "dict":
        same = ds.to_immutable_dict(ref)
        if jax.tree_util.tree_structure(m) != jax.tree_util.tree_structure(same):
          return "a structure other than that of an equal mapping"
        if how != "list" and hash(m) != hash(same):
          return "a hash other than that of an equal mapping"
      m = pickle.loads(pickle.dumps(jax.tree_util.tree_map(lambda x: x, m)))
      if m != ref:
        return f"{m} instead of {ref}"
      get = (lambda t: t[0]) if how in ("list", "tuple") else (lambda t: t["q"])
      # A mapping flattens straight to its leaves, so the way back is through a dictionary.
      back = jax.tree_util.tree_map(lambda t: get(t) if is_new(t) else t, ds.to_mutable_dict(m), is_leaf=is_new)
      sl[s] = ds.to_immutable_dict(back)
    elif k == "map":
      sl[s] = jax.tree_util.tree_map(lambda x: x + 10, f)
    elif k == "sub":
      key, how = op["key"], op["how"]
      sl[s] = f[key] if how == "item" else f.get(key) if how == "get" else getattr(f, key)
    elif k == "set":
      sl[s][op["key"]] = op["n"]
    elif k == "del":
      del sl[s][op["key"]]
    elif k == "setin":
      sl[s][op["key"]][op["key2"]] = op["n"]
    elif k == "put":
      sl[s][op["key"]] = f
    elif k == "force":
      x, how = sl[s], op["how"]
      if how == "update":
        x.update({"w": 99})
      elif how == "pop":
        x.pop("w", None)
      elif how == "clear":
        x.clear()
      elif how == "setdefault":
        x.setdefault("zz", 99)
      elif how == "setattr":
        x.w = 99
      else:
        y = x
        y |= {"w": 99}
    elif k == "eq":
      a, b = sl[s], f
      r = [a == b, b == a, not a != b, not b != a]
      return "true" if all(r) else "false" if not any(r) else str(r)
    elif k == "hash":
      return "same" if hash(sl[s]) == hash(f) and len({sl[s], f}) == 1 else "different"
    elif k == "size":
      return len(jax.tree_util.tree_leaves(sl[s]))
    else:
      raise AssertionError(k)
    return "ok"


def play(beh, job, ix):
  """None or what is wrong."""
  p = Player(job["slots"], ix)
  for n, h in enumerate(beh["hist"]):
    bad = []
    try:
      r = p.do(h["op"])
    except Exception as e:  # pylint: disable=broad-except
      r = "error"
      err = f" ({type(e).__name__}: {e})"
    else:
      err = ""
    if h["r"] != "any" and r != h["r"]:
      return h["op"]["k"], f"step {n} {h['op']} gives {r}{err}, should give {h['r']}"
    p.see(h["see"], bad)
    if bad:
      return h["op"]["k"], f"step {n} {h['op']}: {bad[0]}"
  return None
