"""Replays HkNets on the library's networks."""
import functools
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from jax import lax

DEFAULT_DECAY = dict(resnet=.9, group=None, block=None, mobile=.999)


def make(c):
  name = dict(name=c["path"]) if c["path"] == "model" else {}
  bn = {}
  if c["bnset"] or c["kind"] in ("group", "block"):
    bn = dict(eps=c["eps"], decay_rate=c["decay"])
  if c["kind"] == "mobile":
    if c["check"] == "shapes":
      return hk.nets.MobileNetV1(**name)
    return hk.nets.MobileNetV1(strides=c["strides"], channels=c["channels"], num_classes=c["classes"], use_bn=c["bn"], **name)
  if c["kind"] == "resnet":
    if c["check"] == "shapes":
      return getattr(hk.nets, c["cls"])(c["classes"], resnet_v2=c["v2"])
    logits = {}
    if c["logits"] != "logits":
      logits["name"] = c["logits"]
    if c["winit"] != "zeros":
      logits["w_init"] = jnp.ones
    if not c["bias"]:
      logits["with_bias"] = False
    return hk.nets.ResNet(c["blocks"], c["classes"], bn_config=bn or None, resnet_v2=c["v2"], bottleneck=c["bottle"],
                          channels_per_group=c["channels"], use_projection=c["proj"], logits_config=logits or None, **name)
  stride = c["stride"][0] if c["stride"][0] == c["stride"][1] else tuple(c["stride"])
  kw = dict(channels=c["channel"], stride=stride, use_projection=c["usep"], bn_config=bn, bottleneck=c["bottle"], **name)
  if c["kind"] == "group":
    return hk.nets.ResNet.BlockGroup(num_blocks=c["num"], resnet_v2=c["v2"], **kw)
  return (hk.nets.ResNet.BlockV2 if c["v2"] else hk.nets.ResNet.BlockV1)(**kw)


def norm(x, p, s, mode, eps, decay):
  """Returns the output and the new averages."""
  if mode == "eval":
    mean, var, new = s["mean_ema"]["average"], s["var_ema"]["average"], s
  else:
    mean = x.mean((0, 1, 2), keepdims=True)
    var = (x ** 2).mean((0, 1, 2), keepdims=True) - mean ** 2
    new = s
    if mode == "train":
      new = {}
      for k, v in (("mean_ema", mean), ("var_ema", var)):
        n = int(s[k]["counter"]) + 1
        h = s[k]["hidden"] * decay + v * (1 - decay)
        new[k] = dict(counter=n, hidden=h, average=h / (1 - decay ** n))
  return (x - mean) / np.sqrt(var + eps) * p["scale"] + p["offset"], new


def evaluate(nodes, x, params, state, mode, c):
  vals, state = [], dict(state)
  eps, decay = (c["eps"], c["decay"]) if c["bnset"] or c["kind"] in ("group", "block") else (1e-5, .9)
  if c["kind"] == "mobile":
    eps, decay = 1e-5, .999
  conv = lambda x, n, g: np.asarray(lax.conv_general_dilated(
      jnp.asarray(x, jnp.float32), jnp.asarray(params[n["path"]]["w"]), n["s"], [tuple(p) for p in n["pad"]],
      dimension_numbers=("NHWC", "HWIO", "NHWC"), feature_group_count=g))
  for n in nodes:
    a = [vals[i - 1] for i in n["ins"]]
    op, p = n["op"], params.get(n["path"], {})
    if op == "input":
      y = x
    elif op == "conv":
      y = conv(a[0], n, 1) + p.get("b", 0)
    elif op == "depthwise":
      y = conv(a[0], n, a[0].shape[-1]) + p.get("b", 0)
    elif op == "norm":
      y, state[n["path"]] = norm(a[0], p, state[n["path"]], mode, eps, decay)
    elif op == "relu":
      y = np.maximum(a[0], 0)
    elif op == "add":
      y = a[0] + a[1]
    elif op == "mean":
      y = a[0].mean((1, 2))
    elif op == "maxpool":
      (t, b), (l, r) = n["pad"]
      z = np.pad(a[0], [(0, 0), (t, b), (l, r), (0, 0)], constant_values=-np.inf)
      h, w = n["shape"][1:3]
      y = np.max([z[:, i:i + (h - 1) * n["s"][0] + 1:n["s"][0], j:j + (w - 1) * n["s"][1] + 1:n["s"][1]]
                  for i in range(n["k"]) for j in range(n["k"])], axis=0)
    else:
      y = a[0] @ p["w"] + p.get("b", 0)
    assert list(y.shape) == n["shape"], (n, y.shape)
    vals.append(y)
  return vals[-1], state


def leaf_shapes(tree):
  return {(m, k): tuple(v.shape) for m, d in tree.items() for k, v in d.items()}


def play(b, job, ix):
  c, nodes = job["data"][b["cid"] - 1], b["nodes"]
  where = f"{c['cls']} {({k: c[k] for k in ('shape', 'v2', 'bottle', 'blocks', 'channels', 'channel', 'num', 'stride', 'strides', 'usep', 'bn')})}: "
  args = lambda mode: dict(train=(True, False), eval=(False, False), local=(False, True))[mode][:1 if c["kind"] == "mobile" else 2]
  # test_local_stats has a default in the whole network only.
  def call(x, mode):
    a = args(mode)
    if c["kind"] == "resnet" and mode != "local":
      a = a[:1]
    return make(c)(x, *a)
  f = hk.transform_with_state(call)
  x0 = jnp.zeros(c["shape"])
  want = {(p["path"], p["name"]): tuple(p["shape"]) for p in b["params"]}
  averages = [(n["path"], n["shape"][-1]) for n in nodes if n["op"] == "norm"]
  want_state = {(f"{p}/~/{k}", e): () if e == "counter" else (1, 1, 1, ch)
                for p, ch in averages for k in ("mean_ema", "var_ema") for e in ("counter", "hidden", "average")}
  key = jax.random.PRNGKey(ix)
  first = "train"   # the averages of a normalization only exist from its first training call on
  if c["check"] == "shapes":
    params, state = jax.eval_shape(lambda k, x: f.init(k, x, first), key, x0)
  else:
    params, state = f.init(key, x0, first)
  for what, got, should in (("parameters", leaf_shapes(params), want), ("state", leaf_shapes(state), want_state)):
    if got != should:
      d = set(got.items() if isinstance(got, dict) else got) ^ set(should.items() if isinstance(should, dict) else should)
      return what, where + f"init differs in {what} {sorted(d, key=str)[:4]}"
  if c["check"] == "shapes":
    y, s2 = jax.eval_shape(lambda p, s, k, x: f.apply(p, s, k, x, first), params, state, key, x0)
    if list(y.shape) != nodes[-1]["shape"] or leaf_shapes(s2) != want_state:
      return "shape", where + f"output of shape {y.shape}, should be {nodes[-1]['shape']}"
    return None
  for p in b["params"]:
    v = np.asarray(params[p["path"]][p["name"]])
    if p["init"] == "zeros" and v.any() or p["init"] == "ones" and (v != 1).any() or p["init"] == "draw" and not v.any():
      return "initial", where + f"{p['path']}/{p['name']} does not start with {p['init']}"
  r = np.random.RandomState(ix)
  params = {}
  for p in b["params"]:
    v = r.uniform(.5, 1.5, p["shape"]) if p["name"] == "scale" else r.normal(
        0, 1 / np.sqrt(max(1, np.prod(p["shape"][:-1]))) if p["name"] == "w" else .5, p["shape"])
    params.setdefault(p["path"], {})[p["name"]] = v.astype(np.float32)
  ref = {p: {k: dict(counter=0, hidden=np.zeros([1, 1, 1, ch]), average=np.zeros([1, 1, 1, ch]))
             for k in ("mean_ema", "var_ema")} for p, ch in averages}
  for p, ch in averages:   # averages as if trained before
    for k in ("mean_ema", "var_ema"):
      h = r.uniform(.2, 1., [1, 1, 1, ch]).astype(np.float32)
      n = r.randint(1, 4)
      ref[p][k] = dict(counter=n, hidden=h, average=(h / r.uniform(.3, .9)).astype(np.float32))
  state = {f"{p}/~/{k}": {e: jnp.asarray(v, jnp.int32 if e == "counter" else jnp.float32) for e, v in d.items()}
           for p, ks in ref.items() for k, d in ks.items()}
  for i, mode in enumerate(b["modes"]):
    x = r.normal(0, 1, c["shape"]).astype(np.float32)
    y, state = f.apply(params, state, None, jnp.asarray(x), mode)
    want_y, ref = evaluate(nodes, x, params, ref, mode, c)
    y = np.asarray(y)
    tol = 2e-3 * (1 + np.abs(want_y).max())
    if y.shape != want_y.shape or not np.allclose(y, want_y, atol=tol):
      return "output", where + f"call {i} ({mode}) gives {y.reshape(-1)[:6]}, should give {want_y.reshape(-1)[:6]}"
    if leaf_shapes(state) != want_state:
      return "state", where + f"call {i} changes the shape of the state"
    for p, ks in ref.items():
      for k, d in ks.items():
        for e, v in d.items():
          got = np.asarray(state[f"{p}/~/{k}"][e])
          if not np.allclose(got, v, atol=2e-3 * (1 + np.abs(v).max())):
            return "state", where + f"call {i} ({mode}): {p} {k} {e} is {got.reshape(-1)[:4]}, should be {np.asarray(v).reshape(-1)[:4]}"
  return None
