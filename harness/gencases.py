"""Random cases for the specifications that take options and inputs from a file."""
import random

import numpy as np


def batchnorm(seed, n):
  out = []
  for i in range(n):
    r = random.Random(f"{seed}:{i}")
    nd = r.choice([2, 2, 3, 3, 4])
    shape = [r.choice([1, 2, 2, 3]) if nd > 2 else r.choice([2, 3, 4]) for _ in range(nd)]
    axis = []
    if r.random() < .35:
      axis = sorted(r.sample(range(nd), r.randint(1, nd)))
      if r.random() < .3:
        r.shuffle(axis)
    reps = 2 if r.random() < .2 else 1
    size = int(np.prod(shape))
    fmt = r.choice(["channels_last", "channels_first", "N...C", "NC..."])
    ch = 1 if fmt in ("channels_first", "NC...") else nd - 1
    red = axis or [a for a in range(nd) if a != ch]
    w = int(np.prod([1 if a in red else shape[a] for a in range(nd)]))
    out.append(dict(shape=shape, axis=axis, fmt=fmt, reps=reps, decay=r.choice([0, 1, 2, 3]),
                    cs=r.random() < .5, co=r.random() < .5, eps=r.choice([.125, 1., .01]),
                    xs=[[[r.randint(-3, 4) for _ in range(size)] for _ in range(reps)] for _ in range(2)],
                    scale=[r.randint(-2, 3) for _ in range(w)], offset=[r.randint(-3, 3) for _ in range(w)],
                    args=[[r.randint(-3, 4) for _ in range(w)] for _ in range(2)], wshape=[
                        1 if a in red else shape[a] for a in range(nd)], salt=i))
  return out


def unroll(seed, n):
  out = []
  for i in range(n):
    r = random.Random(f"{seed}:{i}")
    lead = [r.choice([1, 2, 2, 3])] if r.random() < .75 else []
    places = r.choice([["apply"], ["apply", "init"], ["out"], ["apply", "out"]])
    cnt = "out" not in places and r.random() < .5
    nest = r.random() < .3

    def core(k, *sub):
      return dict(k=k, F=r.choice([1, 2, 3]), w=r.randint(0, 9), i=r.randint(0, 5), nest=nest and r.random() < .6,
                  cnt=cnt and k in ("acc", "two", "tick") and r.random() < .7, sub=list(sub))

    def leaf():
      return core(r.choice(["acc", "two", "tick", "acc", "two"]))

    # flags: how many sets of flags the core takes
    def plain(d):
      """A core taking no flags."""
      x = r.random()
      if d == 0 or x < .45:
        return leaf() if r.random() < .85 else core("id")
      if x < .75:
        layers = []
        for _ in range(r.randint(1, 3)):
          y = r.random()
          if y < .2:
            layers.append(core("lam"))
          elif y < .35:
            layers += [core("flagger"), flagged(d - 1)]
          else:
            layers.append(plain(d - 1))
        return core("deep", *layers)
      subs = [leaf() for _ in range(r.randint(1, 3))]
      for s in subs:
        s["nest"] = skipnest
      if r.random() < .2:
        subs.insert(r.randint(0, len(subs)), core("id"))
      return core("skip", *subs)

    def flagged(d):
      """A core taking one set of flags."""
      if d > 0 and r.random() < .2:
        return core("deep", core("id"), core("reset", plain(0)), *([core("lam")] if r.random() < .5 else []))
      return core("reset", plain(d))

    x = r.random()
    skipnest = nest
    inleaves = 2 if nest else 1
    flags = 0
    if x < .3:
      c = plain(2)
    elif x < .8:
      c, flags = flagged(2), 1
    else:
      c, flags = core("reset", flagged(1)), 2
    if r.random() < .25:
      c = core("deep", c, core("pick"))
    if not unroll_ok(c, inleaves):
      continue
    K = r.choice([1, 2])
    T = r.choice([2, 3, 3, 4])
    size = int(np.prod(lead + [K]))
    xs = [[dict(s=lead + [K], d=[r.randint(0, 20) for _ in range(size)]) for _ in range(inleaves)] for _ in range(T)]
    # One flag tensor for all leaves, or one for each; shapes stay the same over time.
    shapes = state_shapes(c, lead)
    fshapes = []
    scalar = False
    for f in range(flags):
      if shapes and r.random() < .5 and len(shapes) > 1:
        fs = [s[:r.randint(len(lead), len(s))] for s in shapes]
      else:
        common = min([len(s) for s in shapes] or [len(lead)])
        d = len(lead)
        if common > d and r.random() < .3 and all(s[:d + 1] == shapes[0][:d + 1] for s in shapes):
          d += 1
        fs = [(shapes[0] if shapes else lead)[:d]]
        if r.random() < .15:
          fs, scalar = [[]], True
      fshapes.append(fs)
    fl = [[[dict(s=s, d=[int(r.random() < .4) for _ in range(int(np.prod(s)))]) for s in fs] for fs in fshapes]
          for _ in range(T)]
    kinds = []
    for at in places:
      for u in r.sample(["step", "static", "dyn"], 2):
        kinds.append(dict(u=u, major=not (lead and not scalar and r.random() < .5), at=at))
    r.shuffle(kinds)
    out.append(dict(lead=lead, core=c, xs=xs, fl=fl, kinds=kinds[:3 if T < 4 else 2], counting=counting(c), salt=i))
  return out


def counting(c):
  return c["cnt"] or any(map(counting, c["sub"]))


def unroll_ok(c, leaves):
  return out_leaves(c, leaves) is not None


def out_leaves(c, n):
  """Number of output leaves for n input leaves; None if the core does not accept them."""
  if c["k"] in ("acc", "two", "tick"):
    return 2 if c["nest"] else 1
  if c["k"] in ("id", "lam", "flagger", "pick"):
    return n
  if c["k"] == "reset":
    return out_leaves(c["sub"][0], n)
  cur = n
  for j, s in enumerate(c["sub"]):
    if c["k"] == "skip" and j and cur != n:
      return None
    cur = out_leaves(s, cur)
    if cur is None or c["k"] == "skip" and cur != n:
      return None
  return cur


def state_shapes(c, lead):
  if c["k"] == "acc":
    return [lead + [c["F"]]]
  if c["k"] == "tick":
    return [lead]
  if c["k"] == "two":
    return [lead + [c["F"]], lead + [c["F"], 2]]
  return [s for x in c["sub"] for s in state_shapes(x, lead)]


PAD_FNS = ["valid()", "same()", "full()", "causal()", "reverse_causal()"]


def conv(seed, n):
  out = []
  i = 0
  while len(out) < n:
    i += 1
    r = random.Random(f"{seed}:{i}")
    kind = r.choice(["conv", "conv", "conv", "transpose", "transpose", "depthwise", "separable", "max", "avg"])
    c = dict(kind=kind, D=[], P=[], G=1, b=[], bias=False, mask=[], out=[], W=[], pad="", S=[], K=[], salt=i,
             w=dict(s=[], d=[]), w2=dict(s=[], d=[]), fmt=r.choice(["last", "last", "first"]), batched=r.random() < .7)

    def ints(k, lo=-3, hi=3):
      return [r.randint(lo, hi) for _ in range(int(np.prod(k)))]

    if kind in ("max", "avg"):
      nd = r.choice([2, 3, 4])
      shape = [r.randint(1, 5 if nd < 4 else 4) for _ in range(nd)]
      c["pad"] = r.choice(["VALID", "SAME"])
      how = r.choice(["int", "seq", "full"])
      c.update(how=how, chan=r.choice([-1, -1, 99, nd - 1, 1, r.randint(1 - nd, -1)]))      # 99: None
      for key in "WS":
        if how == "int":
          v = r.randint(1, 3)
          ax = 99 if c["chan"] == 99 else c["chan"] % nd
          c[key] = [1] + [1 if d == ax else v for d in range(1, nd)]
          c["int" + key] = v
        else:
          m = nd if how == "full" else r.randint(1, nd)
          c[key] = [1] * (nd - m) + [r.randint(1, 3) for _ in range(m)]
          c["int" + key] = m
      if c["pad"] == "VALID" and any(w > s for w, s in zip(c["W"], shape)):
        continue
      c["x"] = dict(s=shape, d=ints(shape, -9, 9))
      out.append(c)
      continue
    nd = 2 if kind in ("depthwise", "separable") else r.choice([1, 1, 2, 2, 3])
    big = 7 if nd == 1 else 4 if nd == 2 else 3
    sp = [r.randint(1, big) for _ in range(nd)]
    same = r.random() < .3        # one number for every axis
    pick = lambda lo, hi: [r.randint(lo, hi)] * nd if same else [r.randint(lo, hi) for _ in range(nd)]
    c.update(K=pick(1, 4 if nd == 1 else 3 if nd == 2 else 2), S=pick(1, 3 if nd < 3 else 2),
             D=pick(1, 3 if nd < 3 else 2), same=same)
    if kind != "conv":
      c["D"] = [1] * nd
    x = r.random()
    if x < .35 or kind == "transpose":
      p = r.choice(["SAME", "VALID"])
      c["P"] = [dict(k=p, lo=0, hi=0)] * nd
      c["lower"] = r.random() < .2
    elif x < .7 and kind == "conv":
      if r.random() < .5:
        c["P"] = [dict(k=r.choice(PAD_FNS), lo=0, hi=0)] * nd
      else:
        c["P"] = [dict(k=r.choice(PAD_FNS), lo=0, hi=0) for _ in range(nd)]
    else:
      c["P"] = [dict(k="pair", lo=r.randint(0, 2), hi=r.randint(0, 2)) for _ in range(nd)]
    B = r.choice([1, 2]) if c["batched"] or kind in ("depthwise", "separable") else 1
    if kind in ("depthwise", "separable"):
      c["batched"] = True
      cin, mult = r.randint(1, 3), r.randint(1, 2)
      cout = cin * mult
      ws = c["K"] + [1, cout]
      if kind == "separable":
        ws = [c["K"][0], 1, 1, cout]
        s2 = [1, c["K"][1], 1, cout]
        c["w2"] = dict(s=s2, d=ints(s2))
      c["mult"] = mult
    elif kind == "conv":
      c["G"] = r.choice([1, 1, 2, 3]) if nd < 3 else r.choice([1, 2])
      cin, cout = c["G"] * r.choice([1, 2]), c["G"] * r.choice([1, 1, 2])
      ws = c["K"] + [cin // c["G"], cout]
    else:
      cin, cout = r.randint(1, 2), r.randint(1, 2)
      ws = c["K"] + [cout, cin]
      if r.random() < .5:
        c["out"] = [r.randint(1, 9 if nd < 3 else 4) if r.random() < .15 else
                    transposed_size(r, c["P"][0]["k"], sp[a], c["K"][a], c["S"][a]) for a in range(nd)]
        if any(o < 1 for o in c["out"]):
          continue
    if min(conv_sizes(c, sp), default=1) < 1:
      continue
    outs = c["out"] or [n * k for n, k in zip(sp, c["S"])] if kind == "transpose" else sp
    if int(np.prod([B] + outs + [cout])) > 160 or int(np.prod([B] + outs + ws)) > 5000:
      continue
    c["x"] = dict(s=[B] + sp + [cin], d=ints([B] + sp + [cin]))
    c["w"] = dict(s=ws, d=ints(ws))
    c["bias"] = r.random() < .5
    c["b"] = ints([cout])
    if kind in ("conv", "transpose") and r.random() < .3:
      c["mask"] = ints(ws, 0, 1)
    out.append(c)
  return out


def transposed_size(r, pad, n, k, s):
  if pad == "SAME":
    return r.randint((n - 1) * s + 1, n * s)
  return r.randint((n - 1) * s + k, n * s + k - 1)


def conv_sizes(c, sp):
  """Output sizes where padding may leave nothing."""
  if c["kind"] == "transpose":
    return []
  out = []
  for a, n in enumerate(sp):
    e = (c["K"][a] - 1) * c["D"][a] + 1
    p = c["P"][a]
    if p["k"] in ("VALID", "valid()"):
      out.append((n - e) // c["S"][a] + 1)
    elif p["k"] == "pair":
      out.append((n + p["lo"] + p["hi"] - e) // c["S"][a] + 1)
      if c["kind"] == "separable":
        out.append(out[-1] + 0)
  return out


def layers(seed, n):
  out = []
  i = 0
  while len(out) < n:
    i += 1
    r = random.Random(f"{seed}:{i}")

    def tensor(s, lo=-2, hi=2):
      return dict(s=list(s), d=[r.randint(lo, hi) for _ in range(int(np.prod(s)))])

    def layer(k, **kw):
      d = dict(k=k, ls=[], f="", final=False, all=False, dims=[], sized=[], b=[], m=tensor([]), n=0, heads=1, free=True,
               mask=tensor([]), kx=tensor([]), vx=tensor([]), opt=r.randint(0, 999))
      for a in "qkv":
        d["w" + a], d["b" + a] = tensor([]), []
      d.update(kw)
      return d

    def affine(a, b, bias):
      return dict(w=tensor([a, b]), b=[r.randint(-3, 3) for _ in range(b)] if bias else [])

    kind = r.choice(["chain", "chain", "bias", "bias", "embed", "mlp", "attention", "linear"])
    size = lambda: r.randint(1, 3)
    if kind == "attention":
      B, T, S, H, kd = r.choice([1, 2]), size(), r.randint(1, 4), r.choice([1, 2, 3]), r.choice([1, 2, 3])
      vd, model = r.choice([0, 1, 2]), r.choice([0, 1, 3])
      dq, dk, dv = size(), size(), size()
      if S == T and r.random() < .4:       # self attention
        dk = dv = dq
      ms = [r.choice([1, n]) for n in (B, H, T, S - 0)]
      ms[3] = S
      mask = tensor(ms, 0, 1)
      flat = np.array(mask["d"]).reshape(-1, S)
      for row in flat:                     # every query attends to something
        if not row.any():
          row[r.randrange(S)] = 1
      mask["d"] = flat.reshape(-1).tolist()
      v = vd or kd
      lay = layer("attention", heads=H, free=r.random() < .4, mask=mask, kx=tensor([B, S, dk]), vx=tensor([B, S, dv]),
                  wq=tensor([dq, H * kd], -1, 1), wk=tensor([dk, H * kd], -1, 1), wv=tensor([dv, H * v]),
                  bq=[r.randint(-1, 1) for _ in range(H * kd)], bk=[r.randint(-1, 1) for _ in range(H * kd)],
                  bv=[r.randint(-1, 1) for _ in range(H * v)], ls=[affine(H * v, model or H * kd, True)],
                  keysize=kd, vsize=vd, model=model)
      out.append(dict(kind=kind, x=tensor([B, T, dq]), layers=[lay], salt=i))
      continue
    nd = r.randint(1, 4)
    shape = [size() for _ in range(nd)]
    if kind == "embed":
      V, D = r.randint(1, 5), size()
      shape = shape[:r.randint(0, nd)]
      out.append(dict(kind=kind, x=tensor(shape, 0, V - 1), layers=[layer("embed", ls=[dict(w=tensor([V, D], -9, 9), b=[])])],
                      salt=i))
      continue
    if kind == "bias":
      shape = [size() for _ in range(r.choice([1, 2, 2, 3, 3, 4]) if r.random() < .3 else r.randint(2, 4))]
      nd = len(shape)
      x = r.random()
      dims, every = [], x < .25
      if x > .35:
        dims = [r.choice([a, a - nd]) for a in r.sample(range(1, nd), r.randint(1, nd - 1))] if nd > 1 else []
        if r.random() < .1:
          dims.append(r.choice([0, -nd, nd]))
      m = tensor([]) if r.random() < .5 else tensor([r.choice([1, s]) for s in shape][r.randint(0, nd):])
      sized = []
      if r.random() < .25 and nd > 1:
        sized = shape[1:] if r.random() < .7 else [s + 1 for s in shape[1:]]
      nomult = r.random() < .3
      if nomult:
        m = dict(s=[], d=[1])
      lay = layer("bias", all=every, dims=dims, b=[r.randint(-9, 9) for _ in range(int(np.prod(shape)))], m=m, sized=sized,
                  nomult=nomult)
      out.append(dict(kind=kind, x=tensor(shape, -9, 9), layers=[lay], salt=i))
      continue
    if kind == "linear" and r.random() < .05:
      shape = []
    width = shape[-1] if shape else 1
    lays = []
    if kind in ("linear", "mlp"):
      n1 = 1 if kind == "linear" else r.randint(0 if r.random() < .1 else 1, 3)
      bias = r.random() < .6
      sizes = [width] + [size() for _ in range(n1)]
      ls = [affine(a, b, bias) for a, b in zip(sizes, sizes[1:])]
      f = r.choice(["relu", "neg", "inc"])
      final = r.random() < .5
      lays.append(layer(kind, ls=ls, f=f, final=final, bias=bias))
      if kind == "mlp" and n1 and r.random() < .6:
        again = r.choice([None, True, False])
        back = sizes[::-1]
        ls = [affine(a, b, bias) for a, b in zip(back, back[1:])]
        lays.append(layer("mlp", ls=ls, f=f, final=final if again is None else again, bias=bias, reverse=str(again)))
    else:
      for j in range(r.randint(0, 4)):
        k = r.choice(["linear", "act", "mlp"] + (["args"] * 2 if j == 0 else []))
        if k == "act":
          lays.append(layer("act", f=r.choice(["relu", "neg", "inc"])))
        elif k == "args":
          lays.append(layer("args", n=r.randint(0, 5)))
        else:
          bias = r.random() < .6
          sizes = [width] + [size() for _ in range(1 if k == "linear" else 2)]
          lays.append(layer(k, ls=[affine(a, b, bias) for a, b in zip(sizes, sizes[1:])], f="relu", final=r.random() < .5,
                            bias=bias))
          width = sizes[-1]
    out.append(dict(kind=kind, x=tensor(shape), layers=lays, salt=i))
  return out


def norm(seed, n):
  out = []
  i = 0
  while len(out) < n:
    i += 1
    r = random.Random(f"{seed}:{i}")
    kind = r.choice(["layer", "instance", "group", "group"])
    first = kind != "layer" and r.random() < .5
    fmt = r.choice(["channels_first", "NC...", "NCHW", "NCW", "NCHWD"] if first else
                   ["channels_last", "N...C", "NHWC", "NWC", "NHWDC", "BTHWD", "TBD"])
    nd = r.choice([2, 3, 3, 4, 4, 5]) if kind != "layer" else r.choice([1, 2, 3, 3, 4, 5])
    groups = r.choice([1, 2, 2, 3]) if kind == "group" else 1
    channels = groups * r.choice([1, 2, 3]) if kind == "group" else r.randint(1, 4)
    if groups > 1 and r.random() < .04:
      channels += 1
    ch = 1 if first else nd - 1
    if nd == 1:
      ch = 0
    axis, sl = [], []
    if kind != "instance":
      if r.random() < .35 or (kind == "group" and r.random() < .3):
        sl = r.choice([[1, 99], [2, 99], [99, 99], [1, -1], [-1, 99], [99, 2], [-2, 99]])
        if r.random() < .5:
          sl = [1, 99]
      else:
        axis = [r.choice([a, a - nd]) for a in r.sample(range(nd), r.randint(0 if r.random() < .1 else 1, nd))]

    def tensor(s, lo, hi):
      return dict(s=list(s), d=[r.randint(lo, hi) for _ in range(int(np.prod(s)))])

    cs, co = r.random() < .5, r.random() < .5
    calls = []
    for j in range(r.choice([1, 1, 2, 2, 3])):
      rank = nd
      if j and r.random() < .12 and (kind == "group" or (axis == [] and sl)):
        rank = max(2, nd + r.choice([-1, 1]))
      s = [r.randint(1, 3) for _ in range(rank)]
      s[1 if first else -1] = channels
      if j and rank == nd and r.random() < .4:
        s = list(calls[0]["x"]["s"])
      c_at = 1 if first else rank - 1
      for cap in (2, 1):
        for a in range(rank):
          if a != c_at and np.prod(s) > 48:
            s[a] = min(s[a], cap)

      def arg(create):
        if r.random() < (.03 if create else .5):
          return [tensor([r.choice([1, d]) for d in s][r.randint(0, rank):], -3, 3)]
        return []
      calls.append(dict(x=tensor(s, -4, 4), scale=arg(cs), offset=arg(co)))
    out.append(dict(kind=kind, fmt=fmt, first=first, groups=groups, axis=axis, slice=sl, cs=cs, co=co, channels=channels,
                    scale=[r.randint(-4, 4) for _ in range(channels)], offset=[r.randint(-9, 9) for _ in range(channels)],
                    eps=r.choice([1e-5, 1e-3, .5]), calls=calls, salt=i))
  return out


def cores(seed, n):
  out = []
  i = 0
  while len(out) < n:
    i += 1
    r = random.Random(f"{seed}:{i}")
    kind = r.choice(["vanilla", "lstm", "gru", "conv", "conv"])
    H, batch, inputs = r.randint(1, 3), r.choice([0, 1, 2, 3]), r.randint(1, 3)
    space, kernel = [], []
    if kind == "conv":
      nd = r.choice([1, 1, 2, 2, 3])
      space = [r.randint(1, [5, 3, 2][nd - 1]) for _ in range(nd)]
      kernel = [r.randint(1, [4, 3, 2][nd - 1]) for _ in range(nd)]
      if r.random() < .4:
        kernel = [kernel[0]] * nd
      H, batch, inputs = r.randint(1, 2), r.choice([0, 1, 2]), r.randint(1, 2)
    cols = dict(vanilla=1, gru=3).get(kind, 4) * H
    ints = lambda size, m: [r.randint(-m, m) for _ in range(size)]
    area, K, rows = int(np.prod(space)), int(np.prod(kernel)), max(batch, 1)
    double = kind == "conv" or kind == "vanilla" and r.random() < .5
    steps = r.choice([1, 2, 3, 4]) if kind != "conv" else r.choice([1, 2])
    given = r.random() < .5
    units = rows * area * H
    out.append(dict(kind=kind, hidden=H, batch=batch, inputs=inputs, space=space, kernel=kernel,
                    wx=dict(n=inputs, m=cols, d=ints(K * inputs * cols, 5)), wh=dict(n=H, m=cols, d=ints(K * H * cols, 6)),
                    bias=[ints(cols, 4) for _ in range(2 if double else 1)], xs=[ints(rows * area * inputs, 2) for _ in range(steps)],
                    given=given, h0=ints(units, 3) if given else [], c0=ints(units, 3) if given else [], salt=i))
  return out


def summary(seed, n):
  """Programs for HkSummary: calls of modules, with and without failures."""
  import gen
  out = []
  weights = dict(getp=6, gets=2, sets=2, key=.5, const=.5, new=5, call=9, scope=1, icp=.4, pdict=.5, sdict=.3, inner=.5, wrap=.9)
  weights.update({"try": 1.2, "if": .4, "withrng": .2})
  for i in range(n):
    r = random.Random(f"{seed}:{i}:summary")
    g = gen.Gen(r, weights, size=r.randint(5, 20), depth=5, raise_p=.05, bad_p=.01, clean=r.random() < .7,
                wraps=("jit", "remat", "named_call", "vmap", "grad", "vgrad"))
    prog = g.program()
    for op in prog:
      if op["k"] == "icp":
        op["kind"] = r.choice(["pass", "pass", "key", "short", "raise"])
    out.append(dict(prog=prog, prof=r.random() < .15, arg=r.randint(0, 9), salt=r.randint(0, 59)))
  return out


PUBLISHED = {18: 11689512, 34: 21797672, 50: 25557032, 101: 44549160, 152: 60192808, 200: 64673832}
CONFIGS = {18: (False, [2, 2, 2, 2]), 34: (False, [3, 4, 6, 3]), 50: (True, [3, 4, 6, 3]), 101: (True, [3, 4, 23, 3]),
           152: (True, [3, 8, 36, 3]), 200: (True, [3, 24, 36, 3])}


def net(**kw):
  out = dict(kind="resnet", check="values", path="res_net", shape=[2, 16, 16, 3], channels=[], blocks=[], proj=[],
             v2=False, bottle=True, classes=3, logits="logits", winit="zeros", bias=True, bn=True, strides=[], channel=0,
             num=0, stride=[1, 1], usep=False, depth=0, count=0, cls="ResNet", eps=.01, decay=.9, bnset=True)
  out.update(kw)
  return out


def nets_published(which):
  out = []
  for n in which:
    if n == "mobile":
      out.append(net(kind="mobile", cls="MobileNetV1", path="mobile_net_v1", check="shapes", shape=[1, 224, 224, 3],
                     channels=[64, 128, 128] + [256] * 2 + [512] * 6 + [1024] * 2,
                     strides=[1, 2, 1, 2, 1, 2, 1, 1, 1, 1, 1, 2, 1], classes=1000, depth=28, count=4231976))
      continue
    bottle, blocks = CONFIGS[n]
    for v2 in (False, True):
      out.append(net(cls=f"ResNet{n}", path=f"res_net{n}", check="shapes", shape=[1, 224, 224, 3], blocks=blocks,
                     channels=[256, 512, 1024, 2048] if bottle else [64, 128, 256, 512], v2=v2, bottle=bottle,
                     proj=[bottle, True, True, True], classes=1000, depth=n, count=0 if v2 else PUBLISHED[n]))
  return out


def nets(seed, n):
  out = []
  for i in range(n):
    r = random.Random(f"{seed}:{i}")
    v2, bottle = r.random() < .5, r.random() < .5
    name = r.choice(["", "", "model"])
    o = dict(v2=v2, bottle=bottle, eps=r.choice([.01, .1, 1.]), decay=r.choice([.5, .9]), bnset=r.random() < .7)
    size = [r.choice([1, 2, 3]), r.randint(3, 7), r.randint(3, 7)]
    k = r.choice(["resnet", "mobile", "group", "group", "block", "block"])
    if k == "resnet":
      first = r.random() < .4
      out.append(net(kind=k, path=name or "res_net", shape=[2, r.randint(9, 40), r.randint(9, 40), r.choice([1, 3])],
                     channels=[64 if first else r.choice([8, 12, 64])] + [r.choice([4, 8, 16]) for _ in range(3)],
                     blocks=[r.choice([1, 1, 2]) for _ in range(4)], proj=[not first, True, True, True],
                     classes=r.randint(1, 4), logits=r.choice(["logits", "head"]),
                     winit=r.choice(["zeros", "ones"]), bias=r.random() < .7, **o))
    elif k == "mobile":
      d = r.randint(1, 4)
      out.append(net(kind=k, cls="MobileNetV1", path=name or "mobile_net_v1", shape=[2, r.randint(5, 24), r.randint(5, 24), 3],
                     channels=[r.choice([4, 6, 9]) for _ in range(d)], strides=[r.choice([1, 2, 3]) for _ in range(d)],
                     classes=r.randint(1, 4), bn=r.random() < .6))
    else:
      ch = r.choice([4, 8, 12])
      p = r.random() < .6
      if not p and r.random() < .3:    # a single position: any stride keeps the shape
        size[1:] = [1, 1]
      stride = [r.choice([1, 2, 3]), r.choice([1, 2, 3])] if p or size[1:] == [1, 1] else [1, 1]
      cls = "BlockGroup" if k == "group" else "BlockV2" if v2 else "BlockV1"
      out.append(net(kind=k, cls=cls, path=name or {"BlockGroup": "block_group", "BlockV1": "block_v1", "BlockV2": "block_v2"}[cls],
                     shape=size + [r.choice([2, 5]) if p else ch], channel=ch, num=r.randint(1, 3), stride=stride, usep=p, **o))
  return out
