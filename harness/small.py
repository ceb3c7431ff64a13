"""Menus of the small-scope enumeration (spec/HkSmall.tla), per property."""

END = dict(k="end", blk=0)


def leaf(*ops):
  return dict(blocks=0, empty=False, pre=list(ops), mid=[], post=[])


def block(*pre, mid=(), post=(END,), empty=False):
  return dict(blocks=1, empty=empty, pre=list(pre), mid=list(mid), post=list(post))


def op(k, blk=0, **kw):
  return dict(k=k, blk=blk, **kw)


def ini(k="const", c=3):
  return dict(k=k, c=c)


def getp(name="w", k="const", n=2, c=3):
  return op("getp", name=name, n=n, init=ini(k, c))


def gets(name="s", k="const", c=4):
  return op("gets", name=name, n=2, init=ini(k, c))


def sets(name="s", src="inc"):
  return op("sets", name=name, src=src)


def new(name="", slot=1, cls="Mod"):
  return op("new", 1, cls=cls, name=name, sup="yes", slot=slot)


def call(meth="__call__", slot=1):
  return op("call", 1, slot=slot, meth=meth, kw=False)


def made(name="", slot=1, cls="Mod"):
  return [new(name, slot, cls), END]


def mod(name="", meth="__call__", cls="Mod"):
  return block(*made(name, cls=cls), call(meth))


def again(*body, meth="__call__"):
  return leaf(call(meth), *body, END)


def scope(name="a"):
  return block(op("scope", 1, name=name, reuse=False))


def hook(k, kind, i, **kw):
  return block(op(k, 1, kind=kind, id=i, **kw))


KEY, RAISE = op("key"), op("raise", cls="UserError")
TRY = block(op("try", 1))
P, S, PS = dict(p=True, s=False), dict(p=False, s=True), dict(p=True, s=True)


def wrap(kind, argn=0):
  return block(op("wrap", 1, kind=kind, argn=argn))


def switch(kind, other, idx=-1):
  """Both branches run the body, after `other` in the second."""
  return block(op("switch", 2, kind=kind, idx=idx), mid=[END, *other])


def scan(n, rev=False):
  return block(op("scan", 1, n=n, rev=rev, xs=True, len=False, unroll=1))


def inner(rng="key", again_rng="key"):
  return block(op("iinit", 1, rng=rng, bun=1), mid=[END, op("iapply", 1, rng=again_rng, bun=1)])


def lift(name="lifted"):
  return block(op("lift", 1, rng="key", bun=1, name=name), mid=[END, op("iapply", 1, rng="key", bun=1)])


def when(w):
  return block(op("if", 1, when=w))


def c(kind, rng="s1", pref=0, sref=0, **kw):
  out = dict(prog=1, kind=kind, var="tws", nr=False, prof=False, rng=rng, pref=pref, sref=sref, pe=[], se=[], ws=False,
             arg=5, kw=False, form="same", seedint=False, jit=False)
  out.update(kw)
  return out


def e(what, at, b="~", n="w", v=300):
  return dict(op=what, at=at, c=v, b=b, n=n)


BASIC = [c("init"), c("apply", "s2", 1, 1), c("apply", "s3", 1, 2)]
KEYLESS = [c("init", "none"), c("apply", "none", 1, 1)]

SMALL = {
    "C01": dict(size=3, deep=4, scheds=[BASIC, [c("init", "s4", prof=True), c("init", "none", var="t"), c("apply", "none", 1, 1, nr=True)]],
                menu=[leaf(getp()), leaf(getp("w", "key")), leaf(getp("b", "nest")), leaf(getp("b", "v")), leaf(gets()),
                      leaf(gets("s", "key")), leaf(sets()), leaf(sets("s", "v")), leaf(KEY), leaf(RAISE), mod(), TRY]),
    "C02": dict(size=3, deep=4,
                scheds=[[c("init"), c("apply", "s2", 1, 1, pe=[e(x, 0), e("add", 0, "mod", "w", 310)]), c("apply", "s3", 1, 2)]
                        for x in ("set", "drop", "shape")],
                menu=[leaf(getp()), leaf(getp("w", "key")), leaf(getp("b", n=3)), leaf(gets()), leaf(KEY), mod(), mod("a"),
                      TRY, hook("creator", "wrap", 1, **P), hook("getter", "post", 2, **P)]),
    "C03": dict(size=3, deep=4,
                scheds=[[c("init"), c("apply", "s2", 1, 1), c("apply", "s2", 1, 2, se=[e("set", 0)]), c("apply", "none", 1, 3)],
                        [c("init"), c("apply", "s2", 1, 1, se=[e("drop", 0)]), c("apply", "s2", 1, 2, se=[e("add", 0, "mod", "s")])]],
                menu=[leaf(getp()), leaf(gets()), leaf(gets("t", "key")), leaf(op("gets", name="s", n=2, init=dict(k="none"))),
                      leaf(sets()), leaf(sets("s", "v")), leaf(sets("t", "c8")), leaf(op("sdict", slot=1)), mod(), TRY,
                      when("init"), when("apply")]),
    "C04": dict(size=3, deep=4, scheds=[BASIC, KEYLESS],
                menu=[leaf(getp("w", "key")), leaf(sets("s", "v")), leaf(KEY), leaf(RAISE), mod(), scope(), TRY,
                      block(op("withrng", 1, seed=55)), hook("creator", "wrap", 1, **PS), hook("getter", "raise", 2, **P),
                      hook("icp", "res", 3), inner(), lift()]),
    "C06": dict(size=3, deep=4, scheds=[BASIC[:2]],
                menu=[leaf(getp()), leaf(*made()), leaf(*made("a")), leaf(*made("a_1")), leaf(*made("", 2, "Conv2DNet")),
                      again(*made("", 3)), again(*made("a", 3), meth="meth"), mod(), mod("a"), mod("a", "meth"), mod("a_1", "prop"),
                      block(new("a"), post=[END]), scope(), scope("a/x"), scope("mod_1"), TRY]),
    "C07": dict(size=3, deep=4, scheds=[BASIC[:2]],
                menu=[leaf(getp()), leaf(getp("b", "key")), leaf(gets()), leaf(sets("t", "v")), leaf(op("pdict", slot=1)),
                      leaf(op("sdict", slot=1)), leaf(op("pdict", slot=2)), leaf(*made("a", 2)), again(getp("z")),
                      leaf(call("__call__", 2), getp("y"), END), mod(), mod("a", "meth"), mod("m", "tr"), scope()]),
    "C08": dict(size=3, deep=4, scheds=[BASIC[:2], KEYLESS],
                menu=[leaf(KEY), leaf(op("keys", n=2)), leaf(op("maybe")), leaf(op("reserve", n=2)), leaf(getp("w", "key")),
                      leaf(op("seqnew", slot=1, seed=71, int=False), op("seqtake", slot=1, n=2), op("seqres", slot=1, n=1),
                           op("seqnext", slot=1)), leaf(RAISE),
                      mod(), TRY, block(op("withrng", 1, seed=55)), inner()]),
    "C09": dict(size=3, deep=4, scheds=[BASIC[:2]],
                menu=[leaf(getp()), leaf(getp("w", "nest")), leaf(gets()), leaf(sets("s", "v")), mod(), TRY,
                      hook("creator", "wrap", 1, **PS), hook("creator", "short", 2, **P), hook("creator", "shape", 3, **P),
                      hook("creator", "key", 4, **S), hook("creator", "const", 5, **PS), hook("getter", "pre", 6, **PS),
                      hook("getter", "post", 7, **P), hook("getter", "short", 8, **S), hook("getter", "raise", 9, **P)]),
    "C10": dict(size=3, deep=4, scheds=[BASIC[:2]],
                menu=[leaf(getp()), again(getp("z")), again(sets("s", "v"), meth="meth"), leaf(op("pdict", slot=1)), mod(),
                      mod("a", "prop"), mod("", "tr"), mod("", "cell"), mod("", "__call__", "Data"), TRY, scope(),
                      hook("icp", "pass", 1), hook("icp", "arg", 2), hook("icp", "res", 3), hook("icp", "key", 4),
                      hook("icp", "short", 5), hook("icp", "skip", 6), hook("icp", "raise", 7)]),
    "C11": dict(size=2, deep=3, scheds=[BASIC],
                menu=[leaf(getp()), leaf(getp("w", "key")), leaf(gets()), leaf(sets()), leaf(sets("s", "v")), leaf(KEY),
                      leaf(op("reserve", n=2)), leaf(RAISE), mod(), TRY, wrap("jit"), wrap("remat"), wrap("named_call"),
                      wrap("vmap"), wrap("grad"), wrap("vgrad", 1), wrap("eval_shape")]),
    "C12": dict(size=2, deep=3, scheds=[BASIC],
                menu=[leaf(getp()), leaf(gets()), leaf(sets()), leaf(sets("s", "v")), leaf(KEY), leaf(op("const", c=3)), mod(),
                      switch("switch", [op("const", c=7)]), switch("cond", [KEY]), switch("cond", [KEY], 1),
                      switch("oldcond", [sets("s", "c9")]), scan(0), scan(2), scan(3, True),
                      block(op("fori", 1, n=2, lo=1)),
                      block(gets("s", "const", 1), op("while", 1, ck="st", n=3, name="s"), post=[sets(), END]),
                      block(op("while", 1, ck="lt", n=2, name="s"))]),
    "C15": dict(size=3, deep=4, scheds=[BASIC[:2], [c("init"), c("apply", "s2", 1, 1, pe=[e("drop", 0)]), c("apply", "s2", 1, 1, pe=[e("set", 1), e("add", 0, "a", "w")])]],
                menu=[leaf(getp()), leaf(getp("b", "key")), leaf(KEY), mod(), mod("a"), mod("a_1"), mod("a", "meth"), lift(),
                      lift("a"), lift("a_1"), scope(), inner()]),
    "C23": dict(size=3, deep=4, scheds=[BASIC[:2], KEYLESS],
                menu=[leaf(getp("w", "key")), leaf(getp("b")), leaf(sets()), leaf(gets("s", "key")), leaf(KEY), leaf(op("keys", n=2)),
                      leaf(op("reserve", n=1)), leaf(op("maybe")), leaf(RAISE), mod(), TRY, block(op("opt", 1)),
                      block(op("withrng", 1, seed=55)), hook("creator", "key", 1, **P)]),
}
