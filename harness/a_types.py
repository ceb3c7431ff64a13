"""Replays HkTypes on the layers."""
import contextlib
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np
from jax.experimental import enable_x64


def picture(x):
  return x.reshape(2, 2, 2, 2)


def gru(x, name):
  core = hk.GRU(8, name=name)
  return core(x, jnp.zeros([2, 8], x.dtype))[0]


def rnn1(x, name):
  core = hk.VanillaRNN(8, name=name)
  h = x
  for _ in range(2):
    _, h = core(x, h)
  return h


def conv_lstm(x, name):
  core = hk.Conv2DLSTM((2, 2), 2, 2, name=name)
  z = jnp.zeros([2, 2, 2, 2], x.dtype)
  return core(picture(x), hk.LSTMState(z, z))[0]


def norm(x, name, evaluate, scale=True, offset=True):
  m = hk.BatchNorm(scale, offset, .9, name=name)
  y = m(x, True)
  return m(x, False) if evaluate else y


def block(x, name):
  net = hk.nets.ResNet.BlockV1(8, 1, True, dict(decay_rate=.9), True, name=name)
  return net(picture(x), True, False).mean((1, 2))


def index(x):
  return jnp.zeros([2], jnp.int32) + (x[:, 0] > 0)


UNARY = dict(
    linear=lambda x, name: hk.Linear(8, name=name)(x),
    bias=lambda x, name: hk.Bias(name=name)(x),
    conv=lambda x, name: hk.Conv2D(2, 2, name=name)(picture(x)),
    conv_first=lambda x, name: hk.Conv2D(2, 2, data_format="NCHW", name=name)(picture(x)),
    transpose=lambda x, name: hk.Conv2DTranspose(2, 2, name=name)(picture(x)),
    depthwise=lambda x, name: hk.DepthwiseConv2D(1, 2, name=name)(picture(x)),
    separable=lambda x, name: hk.SeparableDepthwiseConv2D(1, (2, 2), name=name)(picture(x)),
    layer_norm=lambda x, name: hk.LayerNorm(-1, True, True, name=name)(x),
    instance_norm=lambda x, name: hk.InstanceNorm(True, True, name=name)(picture(x)),
    group_norm=lambda x, name: hk.GroupNorm(2, name=name)(picture(x)),
    gru=gru, rnn1=rnn1, conv_lstm=conv_lstm, block=block,
    mlp=lambda x, name: hk.nets.MLP([4, 8], name=name)(x),
    mlp_drop=lambda x, name: hk.nets.MLP([4, 8], name=name)(x, .5, hk.next_rng_key()),
    avg_pool=lambda x, name: hk.avg_pool(picture(x), 2, 1, "SAME"),
    max_pool=lambda x, name: hk.MaxPool(2, 1, "SAME", name=name)(picture(x)),
    dropout=lambda x, name: hk.dropout(hk.next_rng_key(), .5, x),
    batch_apply=lambda x, name: hk.BatchApply(lambda y: y * 2)(x.reshape(2, 4, 2)),
    reshape=lambda x, name: hk.Flatten(name=name)(hk.Reshape((4, 2), name=name + "_r")(x)),
    relu=lambda x, name: jax.nn.relu(x),
    ema=lambda x, name: hk.ExponentialMovingAverage(.9, name=name)(x),
    spectral=lambda x, name: hk.SpectralNorm(name=name)(x),
    batch_norm=lambda x, name: norm(x, name, False),
    batch_norm_plain=lambda x, name: norm(x, name, True, False, False),
    batch_norm_scale=lambda x, name: norm(x, name, False, True, False),
    layer_norm_plain=lambda x, name: hk.LayerNorm(-1, False, False, name=name)(x),
    instance_norm_scale=lambda x, name: hk.InstanceNorm(True, False, name=name)(picture(x)),
    group_norm_offset=lambda x, name: hk.GroupNorm(2, create_scale=False, name=name)(x),
    batch_norm_eval=lambda x, name: norm(x, name, True),
    embed=lambda x, name: hk.Embed(2, 8, name=name)(index(x)),
    vq=lambda x, name: hk.nets.VectorQuantizer(8, 3, .1, name=name)(x, True)["quantize"],
    vq_ema=lambda x, name: hk.nets.VectorQuantizerEMA(8, 3, .1, .9, name=name)(x, True)["quantize"],
    lstm_start=lambda x, name: (lambda core: core(x, core.initial_state(2))[0])(hk.LSTM(8, name=name)),
    to_float16=lambda x, name: x.astype(jnp.float16),
    to_bfloat16=lambda x, name: x.astype(jnp.bfloat16),
    to_float32=lambda x, name: x.astype(jnp.float32),
)
BINARY = dict(
    add=lambda x, y, name: x + y,
    lstm=lambda x, y, name: hk.LSTM(8, name=name)(x, hk.LSTMState(y, y))[1].cell,
    rnn=lambda x, y, name: hk.VanillaRNN(8, double_bias=True, name=name)(x, y)[0],
    attention=lambda x, y, name: hk.MultiHeadAttention(2, 4, 1., name=name)(x[None], y[None], y[None]),
)


def store(next_creator, shape, dtype, init, context):
  del dtype, context
  return next_creator(shape, jnp.float32, init)


def hand_out(next_getter, value, context):
  return next_getter(value.astype(context.original_dtype))


def play(b, job, ix):
  outs = []
  where = f"first {b['first']}{' with hooks' if b['hooks'] else ''}, " + " ".join(
      f"{h['op']}({h['a']}{',' + str(h['b']) if h['op'] in BINARY else ''})" for h in b["hist"] if h["op"] != "done") + ": "

  def f(x):
    with contextlib.ExitStack() as es:
      if b["hooks"]:
        es.enter_context(hk.experimental.custom_creator(store, state=False))
        es.enter_context(hk.experimental.custom_getter(hand_out, state=False))
      regs = [x]
      for i, h in enumerate(b["hist"]):
        if h["op"] == "done":
          continue
        a = regs[h["a"] - 1]
        if h["op"] in BINARY:
          y = BINARY[h["op"]](a, regs[h["b"] - 1], f"m{i}")
        else:
          y = UNARY[h["op"]](a, f"m{i}")
        outs.append(y.dtype.name)
        regs.append(y.reshape(2, 8))
    return regs[-1]

  with enable_x64() if job["wide"] else contextlib.nullcontext():
    t = hk.transform_with_state(f)
    x = jnp.asarray(np.random.RandomState(ix).normal(size=(2, 8)), b["first"])
    key = jax.random.PRNGKey(ix)
    should = [h["res"] for h in b["hist"] if h["op"] != "done"]
    run = (lambda g, *a: g(*a)) if job["real"] else jax.eval_shape
    params, state = run(t.init, key, x)
    for what, tree in (("params", params), ("state", state)):
      for i, res in enumerate(should):
        got = {v.dtype.name for m, d in tree.items() if m.split("/")[0] == f"m{i}" for k, v in d.items() if k != "counter"}
        if got != set(res[what]):
          return what, where + f"{what} of {b['hist'][i]['op']} are {sorted(got)}, should be {sorted(res[what])}"
    for phase in ("init", "apply"):
      if phase == "apply":
        outs.clear()
        y, after = run(t.apply, params, state, key, x)
        if jax.tree_util.tree_map(lambda v: v.dtype.name, after) != jax.tree_util.tree_map(lambda v: v.dtype.name, state):
          return "state", where + "apply changes the types of the state"
        if job["real"] and not np.isfinite(np.asarray(y, np.float64)).all():
          return "finite", where + "the output is not finite"
      for i, res in enumerate(should):
        if outs[i] != res["out"]:
          return "output", where + f"{b['hist'][i]['op']} gives {outs[i]} at {phase}, should give {res['out']}"
  return None
