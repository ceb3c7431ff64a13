"""Random sessions for the core machine (see spec/HkSession.tla).

The generator knows nothing about the expected results; it only builds
well-bracketed programs from weighted operation kinds.
"""
import random

PN = ["w", "b"]
MODN = ["", "", "", "a", "a", "a_1", "a_2", "b", "mod", "mod_1", "a_007", "_1"]
BADN = ["1a", "a-b", "a b", "a.b"]
CLS = ["Mod", "Mod", "Mod", "HTTPServer", "Conv2DNet", "ABc", "Data", "Fn"]
SCN = ["a", "a", "x", "x/y", "a/a", "x_1", "a_1"]
METH = ["__call__", "__call__", "__call__", "__call__", "meth", "meth", "_aux", "prop", "prop", "tr", "tr", "cell"]

LEAF = ("getp", "gets", "sets", "key", "keys", "maybe", "reserve", "const", "raise", "rinit",
        "pdict", "sdict", "unused", "seq")
BLOCK = ("new", "call", "scope", "withrng", "creator", "getter", "icp", "try", "if", "wrap",
         "opt", "switch", "scan", "fori", "while", "inner", "lift")

BASE = dict(getp=5, gets=3, sets=3, key=2, const=1, new=4, call=5)


class Gen:

  def __init__(self, rng, weights, *, size=14, depth=4, raise_p=0.0, bad_p=0.02,
               wraps=("jit", "remat", "named_call", "vmap", "grad", "vgrad", "eval_shape"),
               switches=("switch", "cond", "oldcond"), shapes=(2, 2, 2, 2, 3),
               init_w=(6, 2, 1, 1, 0.4), snames=("s", "t"), clean=False):
    self.clean = clean      # avoid most of what makes calls fail
    if clean:
      raise_p, bad_p = 0.0, 0.0
      init_w = tuple(init_w[:4]) + (0,)
    self.r = rng
    self.w = weights
    self.size = size
    self.depth = depth
    self.raise_p = raise_p
    self.bad_p = bad_p
    self.wraps = wraps
    self.switches = switches
    self.shapes = shapes
    self.init_w = init_w
    self.snames = snames
    self.ids = 0

  def nid(self):
    self.ids += 1
    return self.ids

  # -- programs ----------------------------------------------------------------

  def program(self):
    self.budget = self.size
    self.traced = 0
    self.invmap = False
    self.slots = 0
    self.buns = 0
    self.seqs = 0
    tree = []
    while self.budget > 0:
      tree.extend(self.stmt(0))
    return flatten(tree)

  def stmts(self, depth, lo=1, hi=3):
    out = []
    for _ in range(self.r.randint(lo, hi)):
      if self.budget <= 0 and len(out) >= lo:
        break
      out.extend(self.stmt(depth))
    return out

  def stmt(self, depth):
    r = self.r
    self.budget -= 1
    kinds = list(self.w)
    if depth >= self.depth or self.budget <= 0:
      kinds = [k for k in kinds if k in LEAF]
    if self.traced >= 2:
      kinds = [k for k in kinds if k not in ("wrap", "switch", "scan", "fori", "while", "opt", "lift")]
    if self.slots == 0:
      kinds = [k for k in kinds if k not in ("call", "pdict", "sdict")]
    if not kinds:
      return [dict(k="const", c=r.randint(1, 9))]
    k = r.choices(kinds, [self.w[x] for x in kinds])[0]
    return getattr(self, "g_" + k)(depth)

  def init(self):
    k = self.r.choices(["const", "key", "nest", "v", "raise"], self.init_w)[0]
    return dict(k=k, c=self.r.randint(1, 40))

  def g_getp(self, d):
    return [dict(k="getp", name=self.r.choice(PN), n=self.shape(), init=self.init())]

  def shape(self):
    return 2 if self.clean else self.r.choice(self.shapes)

  def g_gets(self, d):
    ini = self.init() if self.clean or self.r.random() < 0.85 else dict(k="none")
    if ini["k"] in ("nest", "v"):
      ini = dict(k="const", c=self.r.randint(1, 40))
    return [dict(k="gets", name=self.r.choice(self.snames), n=2, init=ini)]

  def g_sets(self, d):
    src = self.r.choice(["v", "inc", "inc", "c%d" % self.r.randint(1, 9)])
    return [dict(k="sets", name=self.r.choice(self.snames), src=src)]

  def g_key(self, d):
    return [dict(k="key")]

  def g_keys(self, d):
    return [dict(k="keys", n=self.r.choice([0, 1, 2, 3]))]

  def g_maybe(self, d):
    return [dict(k="maybe")]

  def g_reserve(self, d):
    return [dict(k="reserve", n=self.r.choice([0, 1, 2, 3]))]

  def g_const(self, d):
    return [dict(k="const", c=self.r.randint(1, 9))]

  def g_raise(self, d):
    return [dict(k="raise", cls=self.r.choice(["UserError", "ValueError", "TypeError"]))]

  def g_rinit(self, d):
    return [dict(k="rinit")]

  def g_pdict(self, d):
    return [dict(k="pdict", slot=self.r.randint(1, self.slots))]

  def g_sdict(self, d):
    return [dict(k="sdict", slot=self.r.randint(1, self.slots))]

  def g_unused(self, d):
    what = self.r.choice(["creator", "getter", "icp", "rng"])
    kind = {"creator": "wrap", "getter": "post", "icp": "res", "rng": "x"}[what]
    return [dict(k="unused", what=what, kind=kind, id=self.nid())]

  def g_seq(self, d):
    """A user's own key sequence: made once, then used."""
    if self.traced or not self.seqs or self.r.random() < 0.15:
      if self.traced:
        return [dict(k="key")]
      self.seqs += 1
      return [dict(k="seqnew", slot=self.seqs, seed=self.r.randint(70, 75),
                   int=self.r.random() < 0.5)]
    k = self.r.choice(["seqnext", "seqnext", "seqtake", "seqres"])
    return [dict(k=k, slot=self.r.randint(1, self.seqs), n=self.r.choice([0, 1, 2, 3]))]

  def maybe_raise(self):
    return self.g_raise(0) if self.r.random() < self.raise_p else []

  def block(self, op, d, lo=0, hi=3):
    return [(op, [self.stmts(d + 1, lo, hi) + self.maybe_raise()])]

  def g_new(self, d):
    name = self.r.choice(MODN)
    if self.clean and name not in ("", "a", "b", "mod") and self.r.random() < .6:
      name = "a"
    if self.r.random() < self.bad_p:
      name = self.r.choice(BADN)
    sup = self.r.choices(["yes", "late", "never"], [1, self.bad_p, self.bad_p])[0]
    slot = self.r.randint(1, min(self.slots + 1, 4))
    body = [] if self.r.random() < 0.5 else self.stmts(d + 1, 1, 2)
    self.slots = max(self.slots, slot)
    return [(dict(k="new", cls=self.r.choice(CLS), name=name, sup=sup, slot=slot),
             [body + (self.maybe_raise() if self.r.random() < 0.3 else [])])]

  def g_call(self, d):
    return self.block(dict(k="call", slot=self.r.randint(1, self.slots),
                           meth=self.r.choice(METH), kw=self.r.random() < .25), d, 1, 3)

  def g_scope(self, d):
    name = self.r.choice(SCN)
    if self.r.random() < self.bad_p:
      name = self.r.choice(["", "/a", "a//b", "a/", "a-"])
    return self.block(dict(k="scope", name=name, reuse=self.r.random() < .1), d, 1, 3)

  def g_withrng(self, d):
    return self.block(dict(k="withrng", seed=self.r.randint(50, 59)), d, 1, 3)

  def flags(self):
    return dict(self.r.choice([dict(p=True, s=False)] * 3 + [dict(p=True, s=True)] * 2
                              + [dict(p=False, s=True)] * 2 + [dict(p=False, s=False)]))

  def g_creator(self, d):
    kind = self.r.choices(["pass", "const", "wrap", "shape", "short", "key", "raise"],
                          [3, 3, 4, 0 if self.clean else .5, 1.5, 1, 0 if self.clean else .4])[0]
    return self.block(dict(k="creator", kind=kind, id=self.nid(), **self.flags()), d, 1, 4)

  def g_getter(self, d):
    kind = self.r.choices(["pass", "pre", "post", "short", "raise"], [3, 4, 4, 1.5, 0 if self.clean else .4])[0]
    return self.block(dict(k="getter", kind=kind, id=self.nid(), **self.flags()), d, 1, 4)

  def g_icp(self, d):
    kind = self.r.choices(["pass", "arg", "res", "key", "short", "skip", "raise"],
                          [3, 3, 3, 1, 1.5, 1.5, 0 if self.clean else .4])[0]
    return self.block(dict(k="icp", kind=kind, id=self.nid()), d, 1, 4)

  def g_try(self, d):
    out = self.block(dict(k="try"), d, 1, 3)
    if self.r.random() < 0.5:
      out[0][1][0].extend(self.g_raise(d))
    return out

  def g_if(self, d):
    return self.block(dict(k="if", when=self.r.choice(["init", "apply"])), d, 1, 3)

  def trace_block(self, op, d, nblocks=1, lo=1, hi=3):
    self.traced += 1
    slots, buns = self.slots, self.buns
    bodies = []
    for _ in range(nblocks):
      bodies.append(self.stmts(d + 1, lo, hi) + self.maybe_raise())
      self.slots, self.buns = slots, buns
    self.traced -= 1
    return [(op, bodies)]

  def g_wrap(self, d):
    kind = self.r.choice(self.wraps)
    if kind == "vmap":
      if self.invmap:
        kind = "named_call"
      else:
        self.invmap = True
        out = self.trace_block(dict(k="wrap", kind=kind, argn=self.r.randint(0, 1)), d)
        self.invmap = False
        return out
    return self.trace_block(dict(k="wrap", kind=kind, argn=self.r.randint(0, 1)), d)

  def g_opt(self, d):
    return self.trace_block(dict(k="opt"), d, lo=1, hi=4)

  def g_switch(self, d):
    kind = self.r.choice(self.switches)
    nb = self.r.choice([1, 2, 3]) if kind == "switch" else 2
    r = self.r.random()
    pre = []
    idx = self.r.randrange(nb)
    if r < 0.5:
      pre, idx = [dict(k="const", c=self.r.randint(0, 8))], -1
    elif r < 0.7:
      pre, idx = [dict(k="gets", name="s", n=2, init=dict(k="const", c=1))], -1
    op = dict(k="switch", kind=kind, idx=idx)
    out = self.trace_block(op, d, nb, 1, 2)
    r = self.r.random()
    if r < 0.45:      # branches over the same entries
      body = out[0][1]
      pre = ensure(collect(body)) + pre if idx < 0 else ensure(collect(body))
    elif r < 0.75:    # the same structure with different constants
      body = out[0][1][0]
      out = [(op, [reconst(self.r, body) for _ in range(nb)])]
    return pre + out

  def g_scan(self, d):
    n = self.r.choices([0, 1, 2, 3], [0.5, 2, 4, 3])[0]
    return self.trace_block(dict(k="scan", n=n, rev=self.r.random() < 0.4,
                                 xs=self.r.random() < 0.7, len=self.r.random() < 0.3,
                                 unroll=self.r.choice([1, 1, 2])), d)

  def g_fori(self, d):
    n = self.r.choice([1, 2, 3])
    op = dict(k="fori", n=n, lo=self.r.choice([0, 0, 1, 5]))
    if self.r.random() < 0.1:
      op["n"] = 0
      return [(dict(k="if", when="apply"), [self.trace_block(op, d)])]
    return self.trace_block(op, d)

  def g_while(self, d):
    ck = self.r.choices(["lt", "st", "key", "keys", "set"], [5, 5, 0.5, 0.5, 0.5])[0]
    n = self.r.choice([0, 1, 2, 3])
    op = dict(k="while", ck=ck, n=n, name="s")
    out = self.trace_block(op, d)
    if ck == "st":
      op["n"] = n + self.r.randint(0, 3)
      out[0][1][0].append(dict(k="sets", name="s", src="inc"))
      pre = [dict(k="gets", name="s", n=2, init=dict(k="const", c=self.r.randint(0, 2)))]
    else:
      pre = []
    if self.r.random() < 0.9:
      body = out[0][1][0]
      if self.r.random() < 0.8:
        pre = pre + ensure(collect([body]))
      return pre + [(dict(k="if", when="init"), [strip_new(body) if self.r.random() < 0.5 else []]),
                    (dict(k="if", when="apply"), [out])]
    return pre + [(dict(k="try"), [out])]

  def inner_rng(self):
    return self.r.choice(([] if self.clean else ["none"]) + ["key", "s%d" % self.r.randint(60, 69)])

  def inner_body(self, d):
    slots, buns, traced = self.slots, self.buns, self.traced
    self.slots = 0
    body = self.stmts(d + 1, 1, 4)
    self.slots, self.buns = slots, buns
    self.traced = traced
    return body

  def g_inner(self, d):
    bun = self.r.randint(1, 2)
    body = self.inner_body(d)
    out = [(dict(k="iinit", rng=self.inner_rng(), bun=bun), [body + self.maybe_raise()])]
    for _ in range(self.r.randint(0, 2)):
      out.append((dict(k="iapply", rng=self.inner_rng(), bun=bun), [body + self.maybe_raise()]))
    return out

  def g_lift(self, d):
    bun = self.r.randint(1, 2)
    body = [s for s in self.inner_body(d) if not uses_state(s)]
    name = self.r.choice(["lifted", "lifted", "a", "a_1", "mod", "x", "lifted_1"])
    out = [(dict(k="lift", rng=self.inner_rng(), bun=bun, name=name), [body + self.maybe_raise()])]
    for _ in range(self.r.randint(0, 2)):
      out.append((dict(k="iapply", rng=self.inner_rng(), bun=bun), [body]))
    return out

  # -- sessions ----------------------------------------------------------------

  def key(self):
    return "s%d" % self.r.randint(1, 20)

  def rng(self, none_p=0.15):
    x = self.r.random()
    if x < none_p:
      return "none"
    if x < none_p + 0.01 and not self.clean:
      return "bad"
    return self.key()

  def edits(self, what, edit_p, kinds):
    if self.r.random() >= edit_p:
      return []
    out = []
    for _ in range(self.r.randint(1, 2)):
      op = self.r.choice(kinds)
      if what == "s" and op == "shape":
        op = "set"
      out.append(dict(op=op, at=self.r.randint(0, 7), c=self.r.randint(300, 340),
                      b=self.r.choice(["~", "a", "mod", "mod_1", "zz"]),
                      n=self.r.choice(["w", "q", "s"])))
    return out

  def session(self, nprogs=1, ncalls=4, var=None, none_p=0.15, edit_p=0.3, prof_p=0.06, jit_p=0.08,
              nr_p=0.1, init_p=0.2, t_p=0.1, edit=("drop", "set", "set", "add", "shape")):
    if self.clean:
      none_p, edit = 0.0, tuple(x for x in edit if x in ("set", "add"))
    progs = [self.program() for _ in range(nprogs)]
    calls = []
    inits = {}
    for c in range(ncalls):
      pi = self.r.randrange(nprogs)
      kind = "init" if pi not in inits or self.r.random() < init_p else "apply"
      call = dict(prog=pi + 1, kind=kind, var=var or self.r.choices(["tws", "t"], [1 - t_p, t_p])[0],
                  nr=self.r.random() < nr_p, prof=self.r.random() < prof_p, rng=self.rng(none_p),
                  pref=0, sref=0, pe=[], se=[], ws=self.r.random() < 0.5,
                  arg=self.r.randint(0, 9), kw=self.r.random() < .3,
                  form=self.r.choice(["same", "same", "dict", "none"]),
                  seedint=self.r.random() < 0.3, jit=self.r.random() < jit_p)
      if call["rng"] == "bad" or call["rng"] == "none":
        call["seedint"] = False
      if call["jit"]:
        call["seedint"] = False
      if kind == "apply":
        call["pref"] = inits[pi][0]
        call["sref"] = inits[pi][1]
        if not self.clean and self.r.random() < 0.04:
          call["pref"] = 0
        call["pe"] = self.edits("p", edit_p, edit)
        call["se"] = self.edits("s", edit_p, edit)
        inits[pi] = (inits[pi][0], c + 1)
      else:
        inits[pi] = (c + 1, c + 1)
      calls.append(call)
    return dict(progs=progs, calls=calls)


def uses_state(s):
  if isinstance(s, dict):
    return s["k"] in ("gets", "sets")
  return any(uses_state(x) for b in s[1] for x in b) or s[0]["k"] in ("while",)


def strip_new(body):
  return list(body)


def collect(bodies):
  """State names used directly in the bodies (for `ensure`)."""
  out = []
  def go(s):
    if isinstance(s, dict):
      if s["k"] in ("gets", "sets") and s["name"] not in out:
        out.append(s["name"])
    elif s[0]["k"] not in ("call", "scope", "new", "iinit", "iapply", "lift"):
      for b in s[1]:
        for x in b:
          go(x)
  for b in bodies:
    for x in b:
      go(x)
  return out


def ensure(names):
  return [dict(k="gets", name=n, n=2, init=dict(k="const", c=3)) for n in names]


def reconst(rng, body):
  out = []
  for s in body:
    if isinstance(s, dict):
      s = dict(s)
      if s["k"] == "const":
        s["c"] = rng.randint(1, 9)
      if s["k"] == "sets" and s["src"] != "v":
        s["src"] = rng.choice(["inc", "c%d" % rng.randint(1, 9)])
      out.append(s)
    else:
      out.append((dict(s[0]), [reconst(rng, b) for b in s[1]]))
  return out


def flatten(tree):
  ops = []
  def go(s):
    if isinstance(s, dict):
      ops.append(dict(s))
      return
    op, bodies = s
    op = dict(op)
    ops.append(op)
    beg = len(ops)
    starts = []
    for b in bodies:
      starts.append(len(ops) + 1)
      for x in b:
        go(x)
      ops.append(dict(k="end", beg=beg))
    op["end"] = len(ops)
    if op["k"] == "switch":
      op["starts"] = starts
  for s in tree:
    go(s)
  return ops


def build(seed, n, profile):
  """n sessions for a profile: dict(weights, gen kwargs, session kwargs)."""
  out = []
  for i in range(n):
    rng = random.Random(f"{seed}:{i}:{profile['name']}")
    clean = rng.random() < profile.get("clean", 0.7)
    g = Gen(rng, profile["weights"], clean=clean, **profile.get("gen", {}))
    out.append(g.session(**profile.get("session", {})))
  return out
