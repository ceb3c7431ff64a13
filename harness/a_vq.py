"""Replays HkVq behaviours on VectorQuantizer and VectorQuantizerEMA."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np

num = lambda q: q[0] / q[1]
LEAD = {1: [(), (1,), (1, 1)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (3, 1)], 4: [(4,), (2, 2), (2, 1, 2)]}


def close(a, b):
  a, b = np.asarray(a, np.float64), np.asarray(b)
  return a.shape == b.shape and np.allclose(a, b, rtol=1e-3, atol=1e-4)


class Case:
  def __init__(self, beh, salt):
    self.k, self.n, self.reps, self.ema = beh["k"], beh["n"], beh["reps"], beh["cfg"]["ema"]
    self.decay = num(beh["cfg"]["decay"])
    self.r = np.random.RandomState(salt)
    self.d = 1 + salt % 3
    self.cost = [.25, 2.][salt % 2]
    self.eps = [1e-5, .5][salt // 2 % 2]
    lead = LEAD[self.n]
    self.shape = lead[salt % len(lead)] + (self.d,)
    self.salt = salt
    self.given = []      # inputs of training calls

  def module(self):
    if not self.ema:
      return hk.nets.VectorQuantizer(self.d, self.k, self.cost)
    kw = dict(epsilon=self.eps) if self.eps != 1e-5 else {}
    if self.reps > 1:
      kw["cross_replica_axis"] = "i"
    return hk.nets.VectorQuantizerEMA(self.d, self.k, self.cost, self.decay, **kw)

  def fn(self, runs):
    def f(xs):
      m = self.module()
      return [(m(x, is_training=t), m.quantize(jnp.arange(self.k))) for x, (t, _) in zip(xs, runs)]
    return hk.transform_with_state(f)

  def averages(self, st):
    """(average sum of inputs per entry, codebook), entries first."""
    dw = np.zeros((self.k, self.d))
    for w, a, x in zip(st["weights"], st["past"], self.given):
      for r in range(self.reps):
        for i in range(self.n):
          dw[a[r][i] - 1] += num(w) * x[r][i]
    cs = np.array([num(q) for q in st["sizes"]])
    n = cs.sum()
    return dw, dw / ((cs + self.eps) / (n + self.k * self.eps) * n)[:, None]

  def book(self, st):
    return self.first if not self.ema or not st["t"] else self.averages(st)[1]

  def find(self, book, a):
    """Inputs whose nearest entries are as assigned, or None."""
    out = np.zeros((self.reps, self.n, self.d))
    width = np.ptp(book, axis=0) + .5
    mid = (book.max(0) + book.min(0)) / 2
    for r in range(self.reps):
      for i in range(self.n):
        k = a[r][i] - 1
        for z in range(30):
          x = mid + self.r.uniform(-1, 1, self.d) * width
          if z > 20:
            x = book[k] + self.r.uniform(-1, 1, self.d) * width * .02
          x = np.asarray(x, np.float32).astype(np.float64)
          d = ((x - book)**2).sum(1)
          o = np.delete(d, k)
          if not o.size or d[k] + .01 * d[k] + 2e-4 < o.min():
            break
        else:
          return None
        out[r, i] = x
    return out


def play(beh, job, ix):
  salt = ix * 7 + job.get("tlcseed", 0)
  c = Case(beh, salt % 1000003)
  params = state = None
  for n, h in enumerate(beh["hist"]):
    runs = h["runs"]
    where = f"{beh['cfg']} K={c.k} D={c.d} N={c.n} reps={c.reps} eps={c.eps} step {n} {h['kind']} {runs}: "
    f = c.fn(runs)
    if h["kind"] == "init":
      xs = [jnp.asarray(c.r.uniform(-1, 1, (c.reps,) + c.shape), jnp.float32) for _ in runs]
      init = jax.vmap(f.init, in_axes=(None, 0), axis_name="i") if c.reps > 1 else f.init
      params, state = init(jax.random.PRNGKey(salt), xs if c.reps > 1 else [x[0] for x in xs])
      if c.reps > 1:
        params, state = jax.tree_util.tree_map(lambda x: x[0], (params, state))
      holder = state if c.ema else params
      if (params if c.ema else state):
        return "structure", where + "parameters or state it should not have"
      books = [(b, np.asarray(d["embeddings"])) for b, d in holder.items() if "embeddings" in d]
      if len(books) != 1 or books[0][1].shape != (c.d, c.k):
        return "structure", where + f"embeddings {books}"
      c.first = books[0][1].T.astype(np.float64)
      if np.abs(c.first).max() > np.sqrt(3. / c.d) + 1e-5 or c.first.size > 1 and np.ptp(c.first) == 0:
        return "codebook", where + f"starts as {c.first.tolist()}"
    else:
      given, books = [], []
      for (train, a), st in zip(runs, h["before"]):
        e = c.book(st)
        x = c.find(e, a)
        if x is None:
          return None      # entries coincide: no input is assigned so
        given.append(x)
        books.append(e)
        if train and c.ema:
          c.given.append(x)
      xs = [jnp.asarray(x.reshape((c.reps,) + c.shape), jnp.float32) for x in given]
      old = {(b, k): np.asarray(v) for b, d in state.items() for k, v in d.items()}
      app = f.apply
      if c.reps > 1:
        app = jax.vmap(app, in_axes=(None, None, None, 0), axis_name="i")
        out, new = app(params, state, None, xs)
        for v in jax.tree_util.tree_leaves(new):
          if not all(close(v[0], np.asarray(w, np.float64)) for w in v):
            return "replicas", where + "replicas store different values"
        new = jax.tree_util.tree_map(lambda x: x[0], new)
      else:
        if salt % 9 == 0:
          app = jax.jit(app)
        out, new = app(params, state, None, [x[0] for x in xs])
        out = jax.tree_util.tree_map(lambda x: x[None], out)
      for (train, a), x, e, (o, direct), st in zip(runs, given, books, out, h["before"]):
        r = outputs(c, a, x, e, o)
        if r:
          return r[0], where + r[1]
      if c.reps == 1 and len(runs) == 1:
        r = gradients(c, f, params, state, runs[0][1], given[0], books[0])
        if r:
          return r[0], where + r[1]
      last = c.book(h["st"])
      if runs[-1][0] or not c.ema:
        if not close(out[-1][1][0], last):
          return "codebook", where + f"quantize gives {out[-1][1][0].tolist()}, should be {last.tolist()}"
      if not any(t for t, _ in runs):
        for (b, k), v in old.items():
          if not np.array_equal(v, np.asarray(new[b][k])):
            return "changed", where + f"{b}/{k} changed without training"
      state = new
    r = stored(c, state, h["st"])
    if r:
      return r[0], where + r[1]
  return None


def outputs(c, a, x, e, o):
  for r in range(c.reps):
    idx = np.array(a[r]) - 1
    q = e[idx]
    if not np.array_equal(np.asarray(o["encoding_indices"][r]), idx.reshape(c.shape[:-1])):
      return "nearest", f"inputs {x[r].tolist()} are assigned {o['encoding_indices'][r].tolist()}, should be {idx.tolist()} of {e.tolist()}"
    if not close(o["encodings"][r], np.eye(c.k)[idx]):
      return "encodings", f"{o['encodings'][r].tolist()} for {idx.tolist()}"
    if not close(o["quantize"][r], q.reshape(c.shape)):
      return "quantize", f"{o['quantize'][r].tolist()}, should be {q.tolist()}"
    if not np.allclose(o["distances"][r], ((x[r][:, None] - e[None])**2).sum(-1), rtol=1e-3, atol=1e-3):
      return "distances", f"{o['distances'][r].tolist()}"
    mse = ((q - x[r])**2).mean()
    loss = mse * (c.cost if c.ema else 1 + c.cost)
    if not close(o["loss"][r], loss):
      return "loss", f"{o['loss'][r]}, should be {loss}"
    every = np.concatenate([np.array(b) - 1 for b in a]) if c.ema else idx
    p = np.bincount(every, minlength=c.k) / len(every)
    p = p[p > 0]
    if not close(o["perplexity"][r], np.exp(-(p * np.log(p)).sum())):
      return "perplexity", f"{o['perplexity'][r]}"
  return None


def gradients(c, f, params, state, a, x, e):
  """Straight through to the inputs; the loss moves inputs and entries to each other."""
  idx = np.array(a[0]) - 1
  x = x[0]
  w = c.r.uniform(-1, 1, c.shape)
  of = lambda key: lambda p, z: jnp.sum(f.apply(p, state, None, [z])[0][0][0][key] * (w if key == "quantize" else 1.))
  z = jnp.asarray(x.reshape(c.shape), jnp.float32)
  if not close(jax.grad(of("quantize"), 1)(params, z), w):
    return "gradient", "of the quantized values is not passed straight to the inputs"
  gp, gx = jax.grad(of("loss"), (0, 1))(params, z)
  want = 2 * c.cost * (x - e[idx]) / x.size
  if not close(gx, want.reshape(c.shape)):
    return "gradient", f"of the loss is {gx.tolist()}, should be {want.tolist()}"
  if not c.ema:
    ge = np.zeros_like(e)
    np.add.at(ge, idx, 2 * (e[idx] - x) / x.size)
    if not close(list(gp.values())[0]["embeddings"], ge.T):
      return "gradient", "of the loss by the codebook"
  return None


def stored(c, state, st):
  if not c.ema:
    return ("state", f"there is state {sorted(state)}") if state else None
  seen = set()
  dw, book = c.averages(st) if st["t"] else (np.zeros((c.k, c.d)), c.first)
  f = 1 - c.decay**st["t"]
  for b, d in state.items():
    if "embeddings" in d:
      kind = "book"
      good = set(d) == {"embeddings"} and close(d["embeddings"], book.T)
    else:
      kind = np.ndim(d["hidden"])
      hid, avg = (np.array([num(q) for q in st["hidden"]]), np.array([num(q) for q in st["sizes"]])) if kind == 1 else (dw.T * f, dw.T)
      good = int(d.get("counter", 0)) == st["t"] and close(d["hidden"], hid) and close(d["average"], avg)
    seen.add(kind)
    if not good:
      return "state", f"{b} is {jax.tree_util.tree_map(lambda v: np.asarray(v).tolist(), dict(d))}, should be {st}, codebook {book.tolist()}"
  if seen != {"book", 1, 2} or len(state) != 3:
    return "state", f"there are {sorted(state)}"
  return None
