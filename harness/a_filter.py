"""Replays HkFilter behaviours on the library."""
from collections.abc import Mapping

import haiku as hk
import jax.numpy as jnp
import numpy as np

ds = hk.data_structures
ARR = {"1": np.float32(1.) * np.ones(()), "2": jnp.ones([2, 3], jnp.bfloat16), "3": jnp.zeros([0, 4]),
       "4": {"x": np.ones([3], np.int16), "y": (np.ones([2, 2], np.uint8), None)}, "0": None}
ARR["1"] = jnp.float32(1)


class Tok:
  """A value that only is itself."""

  def __init__(self, s):
    self.s = s


def preds(p):
  return {"all": lambda m, n, v: True, "none": lambda m, n, v: False, "mod": lambda m, n, v: m == "a",
          "name": lambda m, n, v: n == "w", "notname": lambda m, n, v: n != "w", "val": lambda m, n, v: text(v) == "1",
          "mix": lambda m, n, v: (m == "b") == (text(v) == "1")}[p]


def text(v):
  if isinstance(v, Tok):
    return v.s
  if isinstance(v, Mapping):
    return "4" if set(v) == {"x", "y"} else str(v)
  for k, a in ARR.items():
    if v is a:
      return k
  return repr(v)


def entries(x):
  return {(m, n): text(v) for m, b in x.items() for n, v in b.items()}


class Player:

  def __init__(self, job):
    self.pool = {}
    self.arrays = job["arrays"]

  def val(self, s):
    if s not in self.made:
      self.made[s] = ARR[s] if self.arrays and s in ARR else Tok(s)
    return self.made[s]

  made = None

  def do(self, op):
    k, pool = op["k"], self.pool
    src = pool.get(op.get("f"))
    if k == "new":
      d = {}
      for m, n, v in op["v"]:
        d.setdefault(m, {})[n] = self.val(v)
      if op["how"] == "imm":
        d = ds.to_immutable_dict(d)
      elif op["how"] == "mixed":
        d = {m: ds.to_immutable_dict(b) for m, b in d.items()}
      pool[op["s"]] = d
    elif k == "filter":
      pool[op["s"]] = ds.filter(preds(op["p"]), src)
    elif k == "partition":
      r = ds.partition(preds(op["p"]), src)
      pool[op["s"]], pool[op["u"]] = r
    elif k == "map":
      pool[op["s"]] = ds.map(lambda m, n, v: Tok(f"{op['i']}({m},{n},{text(v)})"), src)
    elif k == "merge":
      pool[op["s"]] = ds.merge(*[pool[i] for i in op["fs"]])
    elif k == "poke":
      pool[op["s"]].setdefault(op["x"][0], {})[op["x"][1]] = self.val(op["v"])
    elif k == "remove":
      del pool[op["s"]][op["x"][0]][op["x"][1]]
    elif k == "size":
      x = pool[op["s"]]
      r = ds.tree_size(x), ds.tree_bytes(x)
      if self.arrays and r != (op["size"], op["bytes"]):
        return f"{r} elements and bytes, should be {(op['size'], op['bytes'])}"
    else:
      raise AssertionError(k)
    return None


def play(beh, job, ix):
  p = Player(job)
  p.made = {}
  if not p.arrays and any(h["op"]["k"] == "size" for h in beh["hist"]):
    p.arrays = True
  for n, h in enumerate(beh["hist"]):
    r = p.do(h["op"])
    if r:
      return h["op"]["k"], f"step {n}: {r}"
    see = h["see"] if isinstance(h["see"], list) else [h["see"][str(i)] for i in range(1, len(h["see"]) + 1)]
    for i, w in enumerate(see, 1):
      if w == [["none"]]:
        continue
      got = entries(p.pool[i])
      exp = {(m, nm): v for m, nm, v in w}
      if got != exp:
        return h["op"]["k"], f"step {n} {h['op']}: structure {i} is {got}, should be {exp}"
  return None
