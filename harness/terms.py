"""Concrete values for the specification's value terms.

Terms: c<N> constant, z zeros, s<N> key of seed N, <key>/<n>:<i> = split(key,
n)[i], h<id>(t), p(t,u), L = lane of a vmap.  Every value is a vector of uint32
words: two by default, three for the other shape tag.  `ops` holds the same
functions for JAX arrays, so the real run computes what the term says.
"""
import numpy as np

MARK = 0xC0DE
M32 = 0xFFFFFFFF


def const(n):
  return np.array([n, MARK], np.uint32)


def fn_coeffs(i):
  return (2 * i + 3) & M32, (i * 7919 + 1) & M32


def h(i, x):
  a, b = fn_coeffs(i)
  return (x.astype(np.uint64) * a + b).astype(np.uint32)


def p(x, y):
  return (x.astype(np.uint64) * 5 + y.astype(np.uint64) * 11 + 3).astype(np.uint32)


class Evaluator:
  """Evaluates terms, with caching."""

  def __init__(self):
    self.cache = {}
    self.splits = {}

  def split(self, key_term, n):
    import jax
    if (key_term, n) not in self.splits:
      key = self(key_term)
      self.splits[key_term, n] = np.asarray(jax.random.split(np.asarray(key, np.uint32), n))
    return self.splits[key_term, n]

  def __call__(self, term, n=2, lane=None):
    k = (term, n, lane)
    if k not in self.cache:
      val, pos = self.parse(term, 0, n, lane)
      if pos != len(term):
        raise ValueError(f"bad term {term!r} at {pos}")
      self.cache[k] = val
    return self.cache[k]

  def pad(self, x, n):
    return np.concatenate([x, np.zeros(n - 2, np.uint32)]) if n > 2 else x[:n]

  def parse(self, s, i, n, lane):
    c = s[i]
    if c == "c":
      j = i + 1
      while j < len(s) and s[j].isdigit():
        j += 1
      return self.pad(const(int(s[i + 1:j])), n), j
    if c == "z":
      return np.zeros(n, np.uint32), i + 1
    if c == "L":
      if lane is None:
        raise ValueError("lane term outside vmap")
      return self.pad(const(1000 + lane), n), i + 1
    if c == "s":
      j = i + 1
      while j < len(s) and (s[j].isdigit() or s[j] in "/:"):
        j += 1
      return self.pad(self.key(s[i:j]), n), j
    if c == "h":
      j = s.index("(", i)
      x, e = self.parse(s, j + 1, n, lane)
      assert s[e] == ")", (s, e)
      return h(int(s[i + 1:j]), x), e + 1
    if c == "p":
      x, e = self.parse(s, i + 2, n, lane)
      assert s[e] == ","
      y, e = self.parse(s, e + 1, n, lane)
      assert s[e] == ")"
      return p(x, y), e + 1
    raise ValueError(f"bad term {s!r} at {i}")

  def key(self, s):
    if "/" not in s:
      import jax
      return np.asarray(jax.random.PRNGKey(int(s[1:])))
    base, last = s.rsplit("/", 1)
    n, i = last.split(":")
    return self.split(base, int(n))[int(i)]
