"""Replays specification-predicted sessions on the library and compares."""
import numpy as np

import tlc

CFG = """CONSTANT CaseFile = "cases.json"
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK IdleClean NothingOpenAtReturn ParamsAsGiven StateKept
PROPERTIES InitGrows InitStateGrows
"""


def predict(cases, workers=1, coverage=False, timeout=800):
  """Expected outcomes per case from TLC. Returns (list of outs, tlc result)."""
  r = tlc.run("HkSession", CFG, data=cases, workers=workers, timeout=timeout,
              args=("-coverage", "1") if coverage else ())
  if not r["ok"]:
    raise tlc.TLCError(r["stdout"][-6000:])
  exp = [None] * len(cases)
  for line in r["lines"]:
    exp[line["cid"] - 1] = line
  if any(e is None for e in exp):
    raise tlc.TLCError("missing outcomes")
  return exp, r


def enumerate_small(menu, part, parts, timeout=800):
  """All sessions of a menu (HkSmall) and their outcomes: (cases, outs, tlc result, programs in total)."""
  cfg = CFG.replace('CaseFile = "cases.json"', f'CaseFile = "x"\nCONSTANT MenuFile = "cases.json"\nCONSTANT Part = {part}\n'
                    f"CONSTANT Parts = {parts}\nCONSTANT Cases <- Stored")
  r = tlc.run("HkSmall", cfg, data=menu, timeout=timeout)
  if not r["ok"]:
    raise tlc.TLCError(r["stdout"][-6000:])
  cases, outs, total = {}, {}, 0
  for line in r["lines"]:
    if "total" in line:
      total = line["total"]
    elif "at" in line:
      cases[line["at"]] = line["case"]
    else:
      outs[line["cid"]] = line
  if set(cases) != set(outs) or not cases:
    raise tlc.TLCError("missing outcomes")
  return [cases[i] for i in sorted(cases)], [outs[i] for i in sorted(cases)], r, total


class Mismatch(Exception):

  def __init__(self, clause, detail):
    super().__init__(f"{clause}: {detail}")
    self.clause = clause
    self.detail = detail


def fmt(x):
  return None if x is None else (list(map(int, x)) if isinstance(x, np.ndarray) else str(x))


def check_entries(what, got, want, ev):
  """got: mapping from the library; want: entries of the specification."""
  import driver
  got = driver.snapshot(got)
  exp = {(b, n): (t, w) for b, n, t, w in want}
  for k in exp:
    if k not in got:
      raise Mismatch(f"{what}-missing", f"{k} is not there; there are {sorted(got)}")
  for k in got:
    if k not in exp:
      raise Mismatch(f"{what}-extra", f"{k} should not be there")
  for k, (t, w) in exp.items():
    val = ev(t, w)
    if got[k].shape != val.shape or not np.array_equal(got[k], val):
      raise Mismatch(f"{what}-value", f"{k} is {fmt(got[k])}, should be {t} = {fmt(val)}")


def check_events(got, want, ev):
  for i, e in enumerate(want):
    if i >= len(got):
      raise Mismatch("missing-event", f"event {i} {e['k']} {e['s']!r} {e['t']} did not happen")
    k, s, val = got[i]
    if k != e["k"] or s != e["s"]:
      raise Mismatch("event", f"event {i} is {k} {s!r}, should be {e['k']} {e['s']!r}")
    if k in ("dict", "ip", "is", "lp"):
      if k == "dict":
        exp = {x[0]: (x[1], x[2]) for x in e["d"]}
      else:
        exp = {f"{x[0]}|{x[1]}": (x[2], x[3]) for x in e["d"]}
      lanes = [(0, v) for v in ()]
      vals = [(j, x) for j, x in enumerate(val[1])] if isinstance(val, tuple) else [(None, val or {})]
      del lanes
      for lane, d in vals:
        if set(d) != set(exp):
          raise Mismatch("event-keys", f"event {i} {k} {s!r} has {sorted(d)}, should have {sorted(exp)}")
        for key, (t, n) in exp.items():
          x = ev(t, n, lane)
          if not np.array_equal(x, d[key]):
            raise Mismatch("event-value",
                           f"event {i} {k} {key} is {fmt(d[key])}, should be {t} = {fmt(x)}")
      continue
    if e["t"] == "":
      if val is not None:
        raise Mismatch("event-value", f"event {i} {k} {s!r} has a value")
      continue
    vals = [(j, x) for j, x in enumerate(val[1])] if isinstance(val, tuple) else [(None, val)]
    for lane, x in vals:
      if x is None:
        raise Mismatch("event-value", f"event {i} {k} {s!r} has no value")
      if k in ("grad", "vgrad"):
        exp = ev(e["t"], 2, lane)[:1] & 15
      else:
        exp = ev(e["t"], len(x), lane)
      if not np.array_equal(exp, x):
        raise Mismatch("event-value", f"event {i} {k} {s!r} is {fmt(x)}, should be "
                       f"{e['t']}{'' if lane is None else f' (lane {lane})'} = {fmt(exp)}")
  if len(got) > len(want):
    raise Mismatch("extra-event", f"event {len(want)} {got[len(want)][:2]} should not happen")


def replay(case, exp, ev, gate=None, shared=None, frozen=False):
  """Replays one session. Returns (status, mismatch or None, calls judged)."""
  import driver
  results = []
  shared = shared or driver.Shared()
  judged = 0
  for ix, (call, want) in enumerate(zip(case["calls"], exp["outs"])):
    if want["skip"]:
      return "skip", None, judged, ix
    def arg(ref, edits, entries, field):
      if ref and not edits and results[ref - 1] is not None:
        return results[ref - 1][field]
      return driver.mapping(entries, ev)
    params = state = {}
    if call["kind"] == "apply":
      params = arg(call["pref"], call["pe"], want["pin"], "params")
      state = arg(call["sref"], call["se"], want["sin"], "state")
    try:
      got = driver.run_call(call, case["progs"][call["prog"] - 1], params, state,
                            gate=gate, shared=shared)
    except driver.Overflow:
      return "skip", None, judged, ix
    try:
      if got["err"] != want["err"]:
        raise Mismatch("outcome", f"{got['err'] or 'returns'} ({got['msg']}), should "
                       + (f"raise {want['err']}" if want["err"] else "return"))
      if got["events"] is not None and not (call.get("jit") and want["err"]):
        check_events(got["events"], want["log"], ev)
      if got["problems"]:
        raise Mismatch("inputs", "; ".join(got["problems"]))
      if not want["err"]:
        if call["kind"] == "init":
          check_entries("params", got["params"], want["params"], ev)
        else:
          x = ev(want["v"])
          if not np.array_equal(np.asarray(got["v"]), x):
            raise Mismatch("result", f"{fmt(np.asarray(got['v']))}, should be {want['v']} = {fmt(x)}")
        if call["var"] == "tws":
          check_entries("state", got["state"], want["state"], ev)
      if frozen and not want["err"]:
        for what in ("params", "state"):
          for x in [got[what], *(got[what] or {}).values()]:
            if x and (isinstance(x, dict) or hasattr(x, "__setitem__")):
              raise Mismatch("mutable", f"the {what} returned hold a {type(x).__name__}")
      bad = driver.probe_idle()
      if bad:
        raise Mismatch("idle", "; ".join(bad))
    except Mismatch as e:
      e.call = ix
      return "bad", e, judged, ix
    judged += 1
    if want["err"]:
      results.append(None)
    elif call["kind"] == "init":
      results.append(dict(params=driver.strip(got["params"]), state=driver.strip(got["state"])))
    else:
      results.append(dict(params=params, state=driver.strip(got["state"])))
  return "ok", None, judged, len(case["calls"])
