"""Replays HkLayers on the basic layers."""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np


def arr(t, dtype=np.float32):
  return np.asarray(t["d"], dtype).reshape(t["s"])


ACTS = dict(relu=jax.nn.relu, neg=lambda x: -x, inc=lambda x: x + 1)


def args(x, n, k=0):
  return 2 * x + n - k


class Weights(dict):
  """The expected parameters, and initializers that hand them out."""

  def add(self, module, name, value):
    self.setdefault(module, {})[name] = jnp.asarray(value, jnp.float32)


def affine(ws, module, l):
  ws.add(module, "w", arr(l["w"]))
  if l["b"]:
    ws.add(module, "b", l["b"])


def mlp(ws, l, path, prev=None):
  for j, a in enumerate(l["ls"]):
    affine(ws, f"{path}/~/linear_{j}", a)


def build(c):
  """(the function, its expected parameters)."""
  ws = Weights()
  ls = c["layers"]
  opt = c["salt"]
  if c["kind"] == "linear":
    l = ls[0]
    affine(ws, "linear" if opt % 2 else "l", l["ls"][0])
    kw = {} if opt % 2 else dict(name="l")
    if not l["bias"] or opt % 3:
      kw["with_bias"] = l["bias"]
    return lambda x: [hk.Linear(l["ls"][0]["w"]["s"][1], **kw)(x)], ws
  if c["kind"] == "bias":
    l = ls[0]
    kw = {} if l["all"] else dict(bias_dims=(tuple if opt % 2 else list)(l["dims"]))
    if l["sized"]:
      kw["output_size"] = (tuple if opt % 3 else list)(l["sized"])
    m = arr(l["m"])
    m = float(m) if not m.shape and opt % 2 else m
    return lambda x: [hk.Bias(name="b", **kw)(x) if l["nomult"] else hk.Bias(name="b", **kw)(x, m)], ws
  if c["kind"] == "embed":
    w = arr(ls[0]["ls"][0]["w"])
    ws.add("embed", "embeddings", w)
    V, D = w.shape
    style = ["ARRAY_INDEX", "array_index", hk.EmbedLookupStyle.ARRAY_INDEX, "ONE_HOT", hk.EmbedLookupStyle.ONE_HOT]
    given = opt % 2
    kw = dict(embedding_matrix=w) if given else dict(vocab_size=V, embed_dim=D)
    if given and opt % 3 == 0:
      kw["vocab_size"] = V

    def f(x):
      e = hk.Embed(lookup_style=style[opt % 5], **kw)
      outs = [e(x), e(x, lookup_style=style[(opt + 3) % 5]), e(np.asarray(x) if not isinstance(x, jax.core.Tracer) else x, "one_hot")]
      return outs
    return f, ws
  if c["kind"] == "mlp":
    a = ls[0]
    mlp(ws, a, "mlp")
    if len(ls) > 1:
      mlp(ws, ls[1], "mlp/~reverse/" + ("back" if opt % 2 else "mlp_reversed"))

    def f(x):
      kw = dict(with_bias=a["bias"], activate_final=a["final"])
      if a["f"] != "relu" or opt % 2:
        kw["activation"] = ACTS[a["f"]]
      sizes = [z["w"]["s"][1] for z in a["ls"]]
      net = hk.nets.MLP(iter(sizes) if opt % 3 == 0 else sizes, **kw)
      call = dict(dropout_rate=0., rng=jax.random.PRNGKey(1)) if opt % 5 == 0 else {}
      y = net(x, **call)
      if len(ls) == 1:
        return [y]
      kw = {} if ls[1]["reverse"] == "None" else dict(activate_final=ls[1]["reverse"] == "True")
      if opt % 2:
        kw["name"] = "back"
      return [y, net.reverse(**kw)(y)]
    return f, ws
  if c["kind"] == "attention":
    a = ls[0]
    base = "multi_head_attention"
    for n, w in (("query", "q"), ("key", "k"), ("value", "v")):
      affine(ws, f"{base}/{n}", dict(w=a["w" + w], b=a["b" + w]))
    affine(ws, f"{base}/linear", a["ls"][0])

    def f(x):
      kw = {}
      if a["vsize"]:
        kw["value_size"] = a["vsize"]
      if a["model"]:
        kw["model_size"] = a["model"]
      if opt % 3 == 0:
        kw["query_size"] = a["keysize"]
      m = hk.MultiHeadAttention(a["heads"], a["keysize"], 1., **kw)
      mask = arr(a["mask"])
      mask = [mask, mask.astype(bool), jnp.asarray(mask)][opt % 3]
      kw = {} if a["free"] else dict(mask=mask)
      return [m(x, jnp.asarray(arr(a["kx"])), jnp.asarray(arr(a["vx"])), **kw)]
    return f, ws
  # A chain, as a Sequential.
  seen = {"linear": 0, "mlp": 0}
  for l in ls:
    if l["k"] in seen:
      p = l["k"] + (f"_{seen[l['k']]}" if seen[l["k"]] else "")
      seen[l["k"]] += 1
      if l["k"] == "linear":
        affine(ws, p, l["ls"][0])
      else:
        mlp(ws, l, p)

  def f(x):
    fs, extra, kw = [], [], {}
    for l in ls:
      if l["k"] == "linear":
        fs.append(hk.Linear(l["ls"][0]["w"]["s"][1], with_bias=l["bias"]))
      elif l["k"] == "mlp":
        fs.append(hk.nets.MLP([z["w"]["s"][1] for z in l["ls"]], with_bias=l["bias"], activate_final=l["final"]))
      elif l["k"] == "args":
        fs.append(args)
        extra, kw = ([l["n"], 3], {}) if opt % 2 else ([l["n"]], dict(k=3))
      else:
        fs.append(ACTS[l["f"]])
    return [hk.Sequential(iter(fs) if opt % 3 == 0 else fs)(x, *extra, **kw)]
  return f, ws


def attention(h, l):
  w, b = arr(l["ls"][0]["w"], np.float64), np.asarray(l["ls"][0]["b"], np.float64)
  out = []
  for row in h["att"]:
    for heads in row:
      cat = []
      for hd in heads:
        z = np.asarray(hd["l"], np.float64) / np.sqrt(l["keysize"])
        p = np.exp(z - z.max())
        p /= p.sum()
        cat.append(p @ np.asarray(hd["v"], np.float64))
      out.append(np.concatenate(cat) @ w + b)
  return np.array(out).reshape(len(h["att"]), len(h["att"][0]), -1)


def play(beh, job, ix):
  c = job["data"][beh["cid"] - 1]
  where = f"{c['kind']} of {c['x']['s']} (salt {c['salt']}, case {beh['cid']}): "
  f, ws = build(c)
  hist = beh["hist"]
  if c["kind"] == "bias" and hist[0]["ok"]:
    s = hist[0]["bs"]
    ws.add("b", "b", np.asarray(c["layers"][0]["b"][:int(np.prod(s))]).reshape(s))
  x = arr(c["x"], [np.int32, np.uint8][c["salt"] % 2] if c["kind"] == "embed" else np.float32)
  t = hk.transform(f)
  ok = all(h["ok"] for h in hist)
  try:
    params = t.init(jax.random.PRNGKey(c["salt"]), jnp.asarray(x))
  except ValueError as e:
    return None if not ok else ("raises", where + str(e))
  if not ok:
    return "result", where + "should fail"
  shapes = lambda p: {(m, k): tuple(np.shape(v)) for m, d in p.items() for k, v in d.items()}
  if shapes(params) != shapes(ws):
    return "params", where + f"parameters {shapes(params)}, should be {shapes(ws)}"
  for m, d in params.items():
    if "b" in d and np.any(np.asarray(d["b"])):
      return "params", where + "bias does not start at zero"
    if "embeddings" in d and c["salt"] % 2 and not np.array_equal(d["embeddings"], ws[m]["embeddings"]):
      return "params", where + "the embedding matrix does not start as given"
  app = jax.jit(t.apply) if c["salt"] % 4 == 0 and c["kind"] != "embed" else t.apply
  got = app(dict(ws), None, jnp.asarray(x))
  if c["kind"] == "attention":
    want = [attention(hist[0], c["layers"][0])]
  elif c["kind"] == "mlp":
    want = [arr(h["y"]) for h in hist]
  elif c["kind"] == "chain":
    want = [arr(hist[-1]["y"]) if hist else x]
  else:
    want = [arr(hist[0]["y"])] * len(got)
  if len(got) != len(want):
    return "outputs", where + "number of outputs"
  for g, w in zip(got, want):
    g = np.asarray(g)
    good = np.allclose(g, w, rtol=1e-4, atol=1e-4) if c["kind"] == "attention" else np.array_equal(g, w)
    if g.shape != w.shape or not good:
      return "output", where + f"{g.tolist()} should be {w.tolist()}; layers {c['layers']}"[:1500]
  return None
