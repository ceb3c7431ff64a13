"""Replays HkMove behaviours on Reshape, Flatten, BatchApply and expand_apply."""
import functools

import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np


def arr(t):
  return np.asarray(t["d"], np.int32).reshape(t["s"])


@functools.lru_cache(None)
def module(kind, out, n, salt):
  def f(x):
    if kind == "flatten":
      return (hk.Flatten() if n == 1 and salt % 2 else hk.Flatten(preserve_dims=n))(x)
    o = list(out) if salt % 2 else tuple(out)
    return (hk.Reshape(o) if n == 1 and salt % 3 == 0 else hk.Reshape(o, preserve_dims=n))(x)
  return hk.testing.transform_and_run(f) if salt % 5 == 0 else (
      lambda x, f=hk.without_apply_rng(hk.transform(f)): f.apply({}, x))


def batched(f, seen):
  """A function of the merged tensor; keeps what it is given."""
  def g(x, low=None, **kw):
    seen.append((x.shape, None if low is None else np.shape(low), {k: np.shape(v) for k, v in kw.items()}))
    if f == "rows":
      return x + 100 * jnp.arange(x.shape[0], dtype=jnp.int32).reshape((-1,) + (1,) * (x.ndim - 1))
    if f == "sums":
      return jnp.sum(x, axis=tuple(range(1, x.ndim)))
    if f == "flat":
      return jnp.reshape(x, (x.shape[0], -1))
    if f == "rank":
      return x + 100 * x.ndim
    if f == "low":
      return x + 10 * (jnp.sum(low) if kw.get("v") is None else jnp.sum(kw["v"]))
    return x
  return g


def run(o, x, salt):
  seen = []
  if o["k"] in ("reshape", "flatten"):
    return module(o["k"], tuple(o["out"]), o["n"], salt)(x), None
  g = batched(o["f"], seen)
  call = hk.BatchApply if o["k"] == "batch" else hk.expand_apply
  n = o["n"]
  # Low rank arguments: scalars, or vectors where more dimensions are merged.
  low = jnp.asarray([1, 2], jnp.int32) if n > 1 and salt % 2 else jnp.asarray(3, jnp.int32)
  if salt % 3 == 0:
    low = np.asarray(low)
  kw = {}
  if not (o["k"] == "batch" and n == 2 or o["k"] == "expand" and n == 0) or salt % 2:
    kw = dict(num_dims=n) if o["k"] == "batch" else dict(axis=n)
  how = salt % 4
  if o["f"] == "low":
    if o["k"] == "expand":
      low = jnp.asarray(3, jnp.int32)
    if how == 0:
      y = call(g, **kw)(x, low)
    elif how == 1:
      y = call(g, **kw)(x, low=low)
    elif how == 2:
      y = call(g, **kw)(x=x, low=None, v=low)
    else:
      y = call(lambda low, d: g(d["x"], low), **kw)(low, dict(x=x, y=None))
    return y, seen[0]
  if how == 0:
    y = call(g, **kw)(x)
  elif how == 1:
    y = call(lambda d: dict(a=g(d[0]), b=(d[1] + 1, None)), **kw)((x, x))
    if not np.array_equal(y["b"][0], np.asarray(x) + 1) or y["b"][1] is not None or len(y) != 2:
      return None, seen[0]
    y = y["a"]
  elif how == 2:
    y = call(lambda k, x: (x["p"], g(k)), **kw)(x, x=dict(p=x))
    if not np.array_equal(y[0], x):
      return None, seen[0]
    y = y[1]
  else:
    y = jax.jit(call(g, **kw))(x)
  return y, seen[0]


def play(beh, job, ix):
  for n, h in enumerate(beh["hist"]):
    if n < len(beh["hist"]) - 1 and job.get("last"):
      continue
    o = h["op"]
    salt = sum(map(ord, str((o, h["before"]["s"])))) + ix
    x = arr(h["before"])
    where = f"{o} of shape {h['before']['s']} (salt {salt}): "
    y, seen = run(o, jnp.asarray(x), salt)
    want = arr(h["after"])
    if y is None or y.shape != want.shape or not np.array_equal(np.asarray(y), want):
      return "moved", where + f"{y} should be {want.tolist()}"
    if o["k"] == "batch":
      want = (int(np.prod(x.shape[:o["n"]])),) + x.shape[o["n"]:]
      if seen[0] != want:
        return "merged", where + f"the function sees {seen[0]}, should be {want}"
      low = (2,) if o["n"] > 1 and salt % 2 else ()
      if o["f"] == "low" and any(s != low for s in (seen[1], *seen[2].values()) if s is not None):
        return "low", where + f"arguments of lower rank arrive with shapes {seen}"
    elif o["k"] == "expand":
      want = (1,) + x.shape if o["n"] == 0 else x.shape + (1,)
      if seen[0] != want:
        return "expanded", where + f"the function sees {seen[0]}, should be {want}"
  if ix == 0:
    return misuse()
  return None


def raises(f):
  try:
    f()
  except ValueError:
    return True
  return False


def misuse():
  for n, x in ((2, 1.), (3, np.ones([2, 2])), (1, 2.)):
    if not raises(lambda n=n, x=x: hk.BatchApply(lambda *a: a, num_dims=n)(x, k=x)):
      return "misuse", f"BatchApply of {n} dimensions takes inputs of lower rank only"
  for ax in (1, -2, 2):
    if not raises(lambda ax=ax: hk.expand_apply(lambda x: x, axis=ax)):
      return "misuse", f"expand_apply takes axis {ax}"
  for out, p in (((-1, -1), 1), ((2, 3), 0), ((2,), -1)):
    if not raises(lambda out=out, p=p: hk.testing.transform_and_run(lambda: hk.Reshape(out, p))()):
      return "misuse", f"Reshape takes {out} with {p} dimensions to keep"
  return None
