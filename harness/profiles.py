"""What the sessions of each property are made of (operation weights etc.)."""

def w(**kw):
  kw = {k.rstrip("_"): v for k, v in kw.items()}
  return kw

MODS = dict(new=4, call=5)
STATE = dict(gets=3, sets=3)

CORE = {
    "C01": dict(weights=w(getp=7, gets=4, sets=4, key=1.5, keys=.4, const=1, new=4, call=5, scope=1.5,
                          try_=1.5, if_=.4, rinit=.5, withrng=.4, creator=.4, wrap=.3, scan=.3),
                gen=dict(raise_p=.05, bad_p=.01, init_w=[5, 2.5, 2.5, 1, 1.2]),
                session=dict(ncalls=3, init_p=.5)),
    "C02": dict(weights=w(getp=8, gets=2, sets=2, key=1, const=1, new=4, call=5, scope=1, try_=1.2,
                          creator=1, getter=.5, wrap=.5, scan=.3, lift=.3, if_=.5),
                gen=dict(raise_p=.03, bad_p=.01),
                session=dict(ncalls=5, init_p=.1, edit_p=.6, edit=("drop", "set", "set", "add", "shape"))),
    "C03": dict(weights=w(getp=2, gets=6, sets=7, const=1.5, new=4, call=5, scope=1, try_=1.2, if_=.8,
                          sdict=.8, getter=.4, creator=.4, wrap=.6, switch=.4, scan=.4, while_=.2),
                gen=dict(raise_p=.04, bad_p=.01, snames=("s", "t", "u")),
                session=dict(ncalls=6, init_p=.12, edit_p=.25, t_p=.12)),
    "C04": dict(weights=w(getp=4, gets=2, sets=3, key=2, reserve=.4, const=1, new=4, call=4, scope=1.5,
                          withrng=1.2, creator=1, getter=1, icp=1, try_=4, inner=2.5, lift=.7, wrap=.8,
                          opt=.4, switch=.2, scan=.4, raise_=.5, unused=.4),
                gen=dict(raise_p=.2, bad_p=.04),
                session=dict(nprogs=2, ncalls=6, init_p=.25)),
    "C06": dict(weights=w(getp=2, gets=.5, const=.3, new=9, call=7, scope=3, try_=1, if_=.4, wrap=.4,
                          scan=.3, switch=.2, lift=.2, inner=.3, icp=.3, pdict=.3),
                gen=dict(raise_p=.04, bad_p=.06, size=18, depth=5),
                session=dict(ncalls=2, init_p=.2, edit_p=0)),
    "C07": dict(weights=w(getp=6, gets=3, sets=3, new=5, call=7, scope=2, pdict=2.5, sdict=2.5, try_=.7,
                          icp=.3, inner=.3, lift=.3, wrap=.3),
                gen=dict(raise_p=.04, bad_p=.01, size=18, depth=5),
                session=dict(ncalls=3, init_p=.2, edit_p=.15)),
    "C08": dict(n=800, weights=w(getp=2, key=6, keys=4, maybe=2.5, reserve=3, withrng=3, new=1.5, call=1.5,
                          try_=.8, inner=.8, scan=.7, switch=.5, wrap=.7, opt=.4, while_=.3, seq=3,
                          creator=.3, icp=.3),
                gen=dict(raise_p=.04, bad_p=0, init_w=[3, 5, 1, 1, .3]),
                session=dict(ncalls=3, init_p=.3, none_p=.2, edit_p=0)),
    "C09": dict(weights=w(getp=7, gets=4, sets=2, key=.6, const=.5, new=3, call=3.5, scope=.7, creator=4,
                          getter=4, try_=1.3, unused=1, inner=.5, wrap=.5, scan=.3, switch=.2, pdict=.3),
                gen=dict(raise_p=.05, bad_p=.01, size=16, depth=6),
                session=dict(ncalls=3, init_p=.35, edit_p=.2)),
    "C10": dict(weights=w(getp=3, gets=1.5, sets=1.5, key=.5, const=1, new=6, call=8, scope=1, icp=5,
                          try_=1.3, unused=.5, pdict=.8, sdict=.4, inner=.4, wrap=.5, lift=.3, creator=.3),
                gen=dict(raise_p=.05, bad_p=.01, size=18, depth=6),
                session=dict(ncalls=3, init_p=.3, edit_p=.1)),
    "C11": dict(weights=w(getp=4, gets=3, sets=4, key=2.5, keys=.5, reserve=.5, const=1, new=4, call=4,
                          scope=.8, wrap=7, try_=1, withrng=.4, pdict=.4, creator=.4, getter=.4, icp=.3,
                          scan=.3, switch=.2, opt=.3),
                gen=dict(raise_p=.06, bad_p=.01),
                session=dict(ncalls=4, init_p=.25, edit_p=.1)),
    "C12": dict(weights=w(getp=2.5, gets=4, sets=5, key=2.5, keys=.4, reserve=.4, const=1.5, new=2.5,
                          call=3, scope=.4, switch=3, scan=3, fori=2, while_=2, try_=.6, wrap=.4,
                          withrng=.3, if_=.3),
                n=800, gen=dict(raise_p=.03, bad_p=0, shapes=(2,)),
                session=dict(ncalls=4, init_p=.2, edit_p=.1)),
    "C15": dict(weights=w(getp=5, gets=1, sets=1, key=1, const=.5, new=4, call=4, scope=1, lift=7,
                          try_=.6, inner=.5, pdict=.5, creator=.3, wrap=.3, switch=.2, if_=.2),
                gen=dict(raise_p=.03, bad_p=.01, size=18, depth=5),
                session=dict(ncalls=4, init_p=.15, edit_p=.4)),
    "C23": dict(weights=w(getp=4, gets=2, sets=3, key=4, keys=1, reserve=.7, maybe=.5, const=1, new=4,
                          call=4, scope=.6, opt=6, withrng=1, try_=1, wrap=.5, switch=.3, scan=.4,
                          inner=.4, creator=.3, icp=.3),
                gen=dict(raise_p=.05, bad_p=.01, init_w=[4, 4, 1, 1, .3]),
                session=dict(ncalls=3, init_p=.3, edit_p=.05)),
}
for k, v in CORE.items():
  v["name"] = k

THREADS = dict(
    weights=w(getp=5, gets=2, sets=3, key=3, keys=.5, reserve=.6, const=.5, new=5, call=5, scope=2, withrng=2,
              creator=2, getter=2, icp=2, try_=1, opt=1.2, inner=1, lift=.5, wrap=.8, pdict=.4),
    gen=dict(raise_p=.04, bad_p=.01))
