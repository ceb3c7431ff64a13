"""Replays scheduled behaviours of HkThreads in real threads.

Two granularities: `Ops` follows a schedule of the specification, switching
threads between operations of the programs; `Lines` switches between any two
source lines of the library.  Exactly one thread runs at a time.  What each
thread must observe is what the specification says it observes alone.
"""
import random
import sys
import threading
import time

import core
import tlc

CFG = """CONSTANTS CaseFile = "cases.json"
Preempt = %d
Emitting = "%s"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK %s
PROPERTIES Local
"""
_PATIENCE = [6.0]


def predict(cases, preempt, timeout=800):
  r = tlc.run("HkThreads", CFG % (preempt, "all", "Independent" if preempt < 2 else ""), data=cases,
              timeout=timeout, heap="3000m")
  if not r["ok"]:
    raise tlc.TLCError(r["stdout"][-6000:])
  outs = [None] * len(cases)
  scheds = [[] for _ in cases]
  for line in r["lines"]:
    i = line["cid"] - 1
    scheds[i].append(line["sched"])
    if line["pre"] == 0:
      if outs[i] is not None and outs[i] != line["outs"]:
        raise tlc.TLCError("outcomes depend on the order")
      outs[i] = line["outs"]
  if any(o is None for o in outs):
    raise tlc.TLCError("missing outcomes")
  return outs, scheds, r


class Turns:
  """Lets one thread run at a time; `pick` names the next one."""

  def __init__(self, n, pick):
    self.cv = threading.Condition()
    self.live = set(range(n))
    self.pick = pick
    self.turn = None
    self.free = False
    self.moves = 0

  def _next(self, me):
    self.turn = self.pick(me, self.live)
    self.moves += 1
    self.cv.notify_all()

  def _wait(self, me):
    while not self.free and self.turn != me:
      seen = self.moves
      if not self.cv.wait(timeout=_PATIENCE[0]) and seen == self.moves and not self.free:
        # The running thread waits for something another one holds.
        self.free = True
        _PATIENCE[0] = 1.0
        self.cv.notify_all()

  def start(self, me):
    with self.cv:
      if self.turn is None:
        self._next(None)
      self._wait(me)

  def gate(self, me):
    if self.free:
      return
    with self.cv:
      self._next(me)
      self._wait(me)

  def end(self, me):
    with self.cv:
      self.live.discard(me)
      if self.live and not self.free:
        self._next(None)


def follow(sched):
  """Follow the schedule (thread numbers from 1), then take turns."""
  left = [t - 1 for t in sched]
  state = dict(pos=0, rr=0)
  def pick(me, live):
    while state["pos"] < len(left):
      t = left[state["pos"]]
      state["pos"] += 1
      if t in live:
        return t
    state["rr"] += 1
    return sorted(live)[state["rr"] % len(live)]
  return pick


def anyone(rng):
  def pick(me, live):
    others = sorted(x for x in live if x != me) or sorted(live)
    return rng.choice(others)
  return pick


def run(case, outs, ev, sched=None, seed=None, lengths=(1, 2, 3, 8, 30, 150)):
  """One execution. Returns (statuses, mismatch, calls judged)."""
  import driver
  import haiku as hk
  n = len(case["threads"])
  root = hk.__file__.rsplit("/", 1)[0]
  shared = driver.Shared()
  if sched is not None:
    turns = Turns(n, follow(sched))
  else:
    rng = random.Random(seed)
    turns = Turns(n, anyone(rng))
    lens = [random.Random(f"{seed}.{i}") for i in range(n)]
  found = [None] * n

  def body(i):
    left = [0]
    def local(frame, event, arg):
      if event == "line":
        left[0] -= 1
        if left[0] <= 0:
          left[0] = lens[i].choice(lengths)
          turns.gate(i)
      return local
    def trace(frame, event, arg):
      return local if frame.f_code.co_filename.startswith(root) else None
    turns.start(i)
    try:
      if sched is None:
        sys.settrace(trace)
      gate = (lambda: turns.gate(i)) if sched is not None else (lambda: None)
      # Every thread is judged by what the specification has it observe alone.
      found[i] = core.replay(case["threads"][i], dict(outs=outs[i]), ev, gate=gate,
                             shared=shared if case["shared"] else None)
    except Exception as e:  # pylint: disable=broad-except
      found[i] = ("bad", core.Mismatch("exception", f"{type(e).__name__}: {e}"[:500]), 0, 0)
    finally:
      sys.settrace(None)
      turns.end(i)

  ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
  for t in ts:
    t.start()
  end = time.time() + 120
  for t in ts:
    t.join(max(1, end - time.time()))
  judged = 0
  for i, f in enumerate(found):
    if f is None:
      return "bad", core.Mismatch("hang", f"thread {i} did not finish"), 0
    judged += f[2]
    if f[0] == "bad":
      mm = f[1]
      return "bad", core.Mismatch(mm.clause, f"thread {i}, call {getattr(mm, 'call', 0)}: {mm.detail}"), judged
  return ("skip" if any(f[0] == "skip" for f in found) else "ok"), None, judged


def build(seed, n, profile, big=False):
  import gen
  out = []
  for i in range(n):
    rng = random.Random(f"{seed}:{i}:{big}")
    nt = rng.choice([2, 2, 3]) if big else 2
    same = rng.random() < .6
    ths = []
    base = None
    for _ in range(nt):
      kw = dict(profile["gen"])
      kw["size"] = rng.randint(6, 14) if big else rng.randint(2, 4)
      g = gen.Gen(rng, profile["weights"], clean=rng.random() < .7, **kw)
      s = g.session(nprogs=1, ncalls=3 if big else 1, prof_p=0, jit_p=0, init_p=.3)
      if same and base is not None:
        s["progs"] = base
      base = s["progs"]
      ths.append(s)
    out.append(dict(threads=ths, shared=same))
  return out
