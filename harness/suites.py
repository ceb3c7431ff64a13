"""Which jobs decide which property, and how a job runs."""
import signal

import profiles
import small
import tlc

LIMIT = dict(quick=840, thorough=6 * 3600)


class MachineryError(Exception):
  pass


class Hang(Exception):
  pass


def alarm(seconds):
  def on(*_):
    raise Hang(f"no result after {seconds} s")
  signal.signal(signal.SIGALRM, on)
  signal.alarm(seconds)


def load(name):
  """Imports a module that imports the library: failing to is a violation."""
  import importlib
  return importlib.import_module(name)


# -- core sessions ------------------------------------------------------------


def core_job(job):
  import gen
  prof = profiles.CORE[job["profile"]]
  cases = gen.build(job["seed"], job["n"], prof)
  return run_cases(cases, job)


def small_job(job):
  import core
  try:
    cases, exp, r, total = core.enumerate_small(job["menu"], job["part"], job["parts"])
  except tlc.TLCError as e:
    raise MachineryError(str(e)[-3000:])
  out = judge_cases(cases, exp, r, job)
  out["counts"]["small_scope_sessions"] = len(cases)
  if not job["part"]:
    out["counts"]["small_scope_programs"] = total
  return out


def run_cases(cases, job):
  import core
  try:
    exp, r = core.predict(cases)
  except tlc.TLCError as e:
    raise MachineryError(str(e)[-3000:])
  return judge_cases(cases, exp, r, job)


def judge_cases(cases, exp, r, job):
  import core
  import terms
  out = dict(states=r["distinct"], transitions=r["states"], traces_validated_against_impl=0,
             violations=[], counts=dict(calls_judged=0, sessions_not_specified=0), samples=[],
             actions=r["coverage"])
  ev = terms.Evaluator()
  for c, e in zip(cases, exp):
    alarm(150)
    try:
      status, mm, judged, _ = core.replay(c, e, ev, frozen=job.get("frozen", False))
    except Exception as err:  # pylint: disable=broad-except
      status, judged = "bad", 0
      mm = core.Mismatch("exception", f"{type(err).__name__}: {err}"[:500])
    finally:
      signal.alarm(0)
    out["counts"]["calls_judged"] += judged
    if status == "bad":
      out["violations"].append(dict(clause=mm.clause, detail=f"call {getattr(mm, 'call', 0)}: {mm.detail}",
                                    replay=dict(kind="core", case=c, frozen=job.get("frozen", False))))
      if len(out["violations"]) >= 3:
        break
    elif judged:
      out["traces_validated_against_impl"] += 1
    if status == "skip":
      out["counts"]["sessions_not_specified"] += 1
  for c, e in list(zip(cases, exp))[:1]:
    out["samples"].append(dict(calls=[x["kind"] for x in c["calls"]],
                               program=[x["k"] for x in c["progs"][0]],
                               expected=[dict(err=o["err"], v=o["v"], events=len(o["log"]))
                                         for o in e["outs"]]))
  return out


# -- threads ------------------------------------------------------------------


def threads_job(job):
  import random
  import terms
  import threads
  big = job["big"]
  cases = threads.build(job["seed"], job["n"], profiles.THREADS, big)
  try:
    outs, scheds, r = threads.predict(cases, 0 if big else job["preempt"])
  except tlc.TLCError as e:
    raise MachineryError(str(e)[-3000:])
  out = dict(states=r["distinct"], transitions=r["states"], traces_validated_against_impl=0,
             violations=[], counts=dict(calls_judged=0, schedules=0, line_schedules=0), samples=[])
  ev = terms.Evaluator()
  rng = random.Random(job["seed"])
  for c, o, ss in zip(cases, outs, scheds):
    runs = []
    if not big:
      runs = [dict(sched=s) for s in rng.sample(ss, min(len(ss), job["ops"]))]
    runs += [dict(seed=f"{job['seed']}.{j}") for j in range(job["lines"])]
    for kw in runs:
      status, mm, judged = threads.run(c, o, ev, **kw)
      out["counts"]["calls_judged"] += judged
      out["counts"]["schedules" if "sched" in kw else "line_schedules"] += 1
      if status == "bad":
        out["violations"].append(dict(clause=mm.clause, detail=mm.detail,
                                      replay=dict(kind="threads", case=c, outs=o, run=kw)))
        break
      if judged:
        out["traces_validated_against_impl"] += 1
    if len(out["violations"]) >= 2:
      break
  out["samples"].append(dict(threads=[[x["k"] for x in t["progs"][0]] for t in cases[0]["threads"]],
                             schedules=len(scheds[0]), first=scheds[0][0]))
  return out


# -- behaviours of nondeterministic specifications ------------------------------


def trace_job(job):
  import importlib
  import traces
  try:
    behs, r = traces.behaviours(job)
  except tlc.TLCError as e:
    raise MachineryError(str(e)[-3000:])
  if not behs:
    raise MachineryError("no behaviours")
  share = job.get("share")      # (which, of how many) of the behaviours
  if share:
    behs = behs[share[0]::share[1]]
  out = dict(states=r["distinct"], transitions=r["states"], traces_validated_against_impl=0,
             violations=[], counts=dict(), samples=[behs[0]], actions=r["coverage"])
  judge(out, behs, job, importlib.import_module(job["adapter"]))
  return out


def judge(out, behs, job, adapter):
  for ix, b in enumerate(behs):
    alarm(150)
    try:
      bad = adapter.play(b, job, ix)
    except Exception as e:  # pylint: disable=broad-except
      bad = ("exception", f"{type(e).__name__}: {e}"[:500])
    finally:
      signal.alarm(0)
    if bad:
      out["violations"].append(dict(clause=bad[0], detail=bad[1], replay=dict(kind="trace", job=job, ix=ix, beh=b)))
      if len(out["violations"]) >= 3:
        break
    else:
      out["traces_validated_against_impl"] += 1


# -- registry -----------------------------------------------------------------

CORE_N = dict(quick=1200, thorough=24000)


def jobs(pid, tier, seed):
  out = []
  if pid in profiles.CORE:
    n, chunk = CORE_N[tier], 150
    if tier == "quick":
      n = profiles.CORE[pid].get("n", n)
      chunk = min(chunk, n // 8)
    for i in range(n // chunk):
      out.append(dict(kind="core", profile=pid, seed=f"{seed}.{i}", n=chunk))
  if pid in small.SMALL:
    m = small.SMALL[pid]
    data = dict(menu=m["menu"], size=m["size"] if tier == "quick" else m["deep"], scheds=m["scheds"])
    parts = 8 if tier == "quick" else 32
    out += [dict(kind="small", profile=pid, menu=data, part=i, parts=parts) for i in range(parts)]
  if pid == "C05":
    q = tier == "quick"
    for i in range(16 if q else 64):
      out.append(dict(kind="threads", seed=f"{seed}.{i}", n=5 if q else 12, big=i % 2 == 1,
                      preempt=2 if q else 3, ops=40 if q else 400, lines=10 if q else 40))
  if pid in TRACES:
    out += TRACES[pid](tier == "quick", seed)
  return out


def mapping_jobs(q, seed):
  ops = ["new", "imm", "flat", "mut", "trip", "retree", "map", "sub", "set", "del", "force", "setin", "put", "eq", "hash",
         "size"]
  def job(slots, ops_n, vals, lits, which, **kw):
    def s(xs):
      return "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"
    cfg = (f"CONSTANTS\nSlots = {s(range(1, slots + 1))}\nDepth = {ops_n}\nVals = {s(vals)}\nLits = {s(lits)}\n"
           f"Ops = {s(which)}\nINVARIANTS ImmutableAllTheWay NoDangling\nPROPERTIES ValuesStay\n")
    return dict(kind="trace", adapter="a_mapping", spec="HkMapping", cfg=cfg, slots=slots, **kw)
  out = []
  for i in range(4):
    out.append(job(2, 4, [7], [(5, 8, 7, 6)[i]], [x for x in ops if x not in ("size", "retree")], heap="3g"))
  for i in range(4 if q else 24):
    out.append(job(3, 12, [7, 0], range(1, 9), ops, simulate=700 if q else 4000, depth=20,
                   tlcseed=seed * 100 + i))
  out += [dict(kind="core", profile=p, seed=f"{seed}.{p}", n=60 if q else 1000, frozen=True)
          for p in ("C01", "C03")]
  return out


def tset(xs):
  """A TLA+ set for a configuration file."""
  return "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"


def filter_jobs(q, seed):
  def job(slots, n, news, paths, vals, ops, **kw):
    cfg = (f"CONSTANTS\nMaxNew = {news}\nSlots = {tset(range(1, slots + 1))}\nDepth = {n}\nPaths = {paths}\nVals = {tset(vals)}\n"
           f"Ops = {tset(ops)}\nSample = {6 if 'simulate' in kw else 0}\nINVARIANTS Laws\n")
    return dict(kind="trace", adapter="a_filter", spec="HkFilter", cfg=cfg, arrays=len(vals) > 2, **kw)
  out = [job(2, 2, 1, 4, ["1", "2"], ["new", "filter", "partition", "map", "merge"]),
         job(2, 3, 2, 2, ["1", "2"], ["new", "filter", "merge"]),
         job(2, 3, 2, 2, ["1"], ["new", "partition", "map", "merge", "poke"]),
         job(1, 2, 1, 3, ["0", "1", "2", "3", "4"], ["new", "size", "filter"])]
  for i in range(4 if q else 16):
    out.append(job(3, 9, 4, 5, [["1", "2"], ["1", "2", "3", "4", "0"]][i % 2],
                   ["new", "filter", "partition", "map", "merge", "poke", "size"][:6 + i % 2],
                   simulate=150 if q else 1500, depth=15, tlcseed=seed * 100 + i))
  return out


def ema_jobs(q, seed):
  def job(mode, n, decays, warmups, vals, runs, **kw):
    cfg = (f'CONSTANTS\nMode = "{mode}"\nDepth = {n}\nDecays = {tset(decays)}\nWarmups = {tset(warmups)}\n'
           f"Sample = {2 if 'simulate' in kw else 0}\nValues = {tset(vals)}\nMaxRuns = {runs}\nINVARIANTS Recurrence Unbiased\nPROPERTIES QuietCalls\n")
    return dict(kind="trace", adapter="a_ema", spec="HkEma", cfg=cfg, mode=mode, **kw)
  out = [job("one", 5, [0], [0, 1, 2, 3], [2, 5], 1), job("one", 5, [1], [0, 1, 2], [2, 5], 1),
         job("one", 5, [2], [0, 1, 3], [2, 5], 1), job("one", 5, [3], [0, 2], [2, 5], 1)]
  for i in range(4 if q else 16):
    out.append(job(["one", "tree"][i % 2], 5 + i // 2 % 2, [0, 1, 2, 3], [0, 1, 2, 3], [0, 1, 3, 4, 7], 2,
                   simulate=[250, 120][i % 2] if q else 2000, depth=12, tlcseed=seed * 100 + i))
  return out


def batchnorm_jobs(q, seed):
  import gencases
  cfg = ('CONSTANTS\nCaseFile = "cases.json"\nDepth = %d\nSample = %d\n'
         "INVARIANTS Normalizes VarNonNegative InStep\nPROPERTIES OnlyTrainingUpdates\n")
  out = []
  for i in range(8 if q else 32):
    s = f"{seed}.{i}"
    if i % 4 == 3:
      out.append(dict(kind="trace", adapter="a_batchnorm", spec="HkBatchNorm", cfg=cfg % (3, 0), seed=s,
                      data=[dict(c, cs=True, co=True) for c in gencases.batchnorm(s, 3 if q else 12)]))
    else:
      out.append(dict(kind="trace", adapter="a_batchnorm", spec="HkBatchNorm", cfg=cfg % (5, 1), seed=s,
                      data=gencases.batchnorm(s, 25 if q else 60), simulate=80 if q else 800, depth=12,
                      tlcseed=seed * 100 + i))
  return out


def case_jobs(spec, adapter, gen, cfg, n, parts):
  """Jobs over random cases: n = (quick, thorough) cases for each of parts."""
  def jobs_of(q, seed):
    import gencases
    return [dict(kind="trace", adapter=adapter, spec=spec, cfg='CONSTANTS\nCaseFile = "cases.json"\n' + cfg,
                 seed=f"{seed}.{i}", data=getattr(gencases, gen)(f"{seed}.{i}", n[0] if q else n[1]))
            for i in range(parts[0] if q else parts[1])]
  return jobs_of


unroll_jobs = case_jobs("HkUnroll", "a_unroll", "unroll", "INVARIANTS CutsAgree ResetLaw ShapesStay\n", (14, 80), (8, 32))


def conv_jobs(q, seed):
  import gencases
  cfg = ('CONSTANTS\nSource = "%s"\nSizes = %s\nKernels = %s\nStrides = %s\nDilations = %s\n'
         "INVARIANTS Adjoint PadLaws DepthwiseLaw PoolLaw\n")
  out = []
  for n in ([1, 2, 3, 5] if q else [1, 2, 3, 4, 5, 6, 7]):
    out.append(dict(kind="trace", adapter="a_conv", spec="HkConvCases", seed=seed,
                    cfg=cfg % ("enum", tset([n]), tset([1, 2, 3] if q else [1, 2, 3, 4]), tset([1, 2, 3]),
                               tset([1, 2] if q else [1, 2, 3]))))
  for i in range(8 if q else 32):
    s = f"{seed}.{i}"
    out.append(dict(kind="trace", adapter="a_conv", spec="HkConvCases", seed=s,
                    cfg=cfg % ("cases.json", "{1}", "{1}", "{1}", "{1}"), data=gencases.conv(s, 110 if q else 600)))
  return out



def move_jobs(q, seed):
  def job(shapes, n, dims, what, **kw):
    cfg = (f"CONSTANTS\nShapes = {tset(shapes)}\nDepth = {n}\nSample = {4 if 'simulate' in kw else 0}\nMaxDims = {dims}\n"
           f"What = {tset(what)}\nINVARIANTS WellFormed OrderKept Rowwise ExpandKeepsShape\n")
    return dict(kind="trace", adapter="a_move", spec="HkMove", cfg=cfg, **kw)
  every = ["reshape", "flatten", "batch", "expand"]
  out = [job([1, 2, 3, 4, 5], 1, 3, every), job([6, 7, 8, 9, 10], 1, 3, every)]
  out += [job([s], 2, 2, every) for s in ([2, 3, 4, 6, 7, 10] if q else [1, 2, 3, 4, 5, 6, 7, 10])]
  for i in range(4 if q else 16):
    out.append(job(range(1, 11), 5, 3, every, simulate=120 if q else 1500, depth=8, tlcseed=seed * 100 + i))
  return out

layers_jobs = case_jobs("HkLayers", "a_layers", "layers", "INVARIANTS LinearLaw EmbedLaw BiasLaw MaskLaw\n", (110, 1000), (8, 32))
norm_jobs = case_jobs("HkNorm", "a_norm", "norm", "INVARIANTS Partition Variance OwnExample ShiftLaw\n", (110, 1000), (8, 32))

def stats_jobs(q, seed):
  def job(mode, n, vals, runs, **kw):
    cfg = (f'CONSTANTS\nMode = "{mode}"\nDepth = {n}\nSample = {3 if 'simulate' in kw else 0}\nValues = {tset(vals)}\n'
           f"MaxRuns = {runs}\nINVARIANTS OncePerUpdate InStep\nPROPERTIES QuietCalls\n")
    return dict(kind="trace", adapter="a_spectral", spec="HkSpectral", cfg=cfg, mode=mode, **kw)
  out = [job("one", 2, [1, 3, 5, 6], 1), job("one", 3, [2, 4], 1)] + ([] if q else [job("tree", 2, [1], 1)])

  def vq(n, k, num, reps, decays, runs, **kw):
    cfg = (f"CONSTANTS\nDepth = {n}\nK = {k}\nN = {num}\nReps = {reps}\nDecays = {tset(decays)}\nMaxRuns = {runs}\n"
           f"Sample = {3 if 'simulate' in kw else 0}\nINVARIANTS SizesSum WeightsSum SizesByWeights\n"
           "PROPERTIES OnlyTrainingUpdates\n")
    return dict(kind="trace", adapter="a_vq", spec="HkVq", cfg=cfg, **kw)
  out.append(vq(2, 2, 2, 1, [0, 2], 1))
  for i in range(7 if q else 28):
    out.append(vq([3, 4, 5][i % 3], [2, 3, 1, 4][i % 4], [1, 4, 3, 2][(i * 2 + i // 4) % 4], [1, 1, 2][i % 3], [0, 1, 2, 3], 2,
                  simulate=60 if q else 300, depth=12, tlcseed=seed * 100 + i))
  for i in range(4 if q else 16):
    out.append(job(["one", "tree"][i % 2], 6, [1, 2, 3, 4, 5, 7] if i % 4 == 2 else [1, 2, 3, 4, 7], 2,
                   simulate=[300, 60][i % 2] if q else 1000, depth=12, tlcseed=seed * 100 + i))
  return out


def cores_jobs(q, seed):
  import gencases
  cfg = ('CONSTANTS\nMode = "%s"\nCaseFile = "cases.json"\nDepth = %d\nKind = "%s"\n'
         "INVARIANTS RowsApart ColumnsOnce GateLaws Counts\n")
  job = lambda *a, **kw: dict(kind="trace", adapter="a_cores", spec="HkCores", cfg=cfg % a, core=a[2], **kw)
  out = [job("gates", 2 if q else 3, "lstm"), job("gates", 3 if q else 4, "gru"), job("gates", 3 if q else 5, "vanilla")]
  for i in range(8 if q else 32):
    s = f"{seed}.{i}"
    out.append(job("cases", 0, "", data=gencases.cores(s, 40 if q else 300), seed=s))
  return out


summary_jobs = case_jobs("HkSummary", "a_summary", "summary", "INVARIANTS TypeOK OpenAreRunning RowsOwn Finished\n",
                         (160, 1500), (8, 32))

def init_jobs(q, seed):
  def job(what, ids=range(1, 18), scales=(1, 4, 8), modes=("fan_in",), kinds=(0, 1)):
    cfg = (f'CONSTANTS\nWhat = "{what}"\nShapeIds = {tset(ids)}\nScales = {tset(scales)}\nModes = {tset(modes)}\n'
           f"Kinds = {tset(kinds)}\nINVARIANTS FanLaws Restores Between UniformLaw LayerLaw\n")
    return dict(kind="trace", adapter="a_init", spec="HkInit", cfg=cfg, turns=q, turn=seed)
  parts = lambda n: [range(i, 18, n) for i in range(1, n + 1)]
  out = [job(w, ids=ids) for w in ("normal", "trunc", "range") for ids in parts(2)]
  out += [job("constant"), job("identity"), job("uniscale")]
  out += [job("dropout", scales=(0, 1, 2, 3, 4, 5), kinds=(0,), ids=ids) for ids in parts(2)]
  out += [job("orthogonal", kinds=range(6), ids=ids) for ids in parts(2)]
  out += [job("variance", scales=[s], modes=[m], kinds=[k]) for s in ((1, 4) if q else (1, 4, 8, 40))
          for m in ("fan_in", "fan_out", "fan_avg") for k in (0, 1, 2) if not q or m == "fan_avg" or s == 4 or k == 1]
  out += [job("layers", modes=("last", "first"), scales=(1, 2, 8), kinds=range(i, 17, 6)) for i in range(1, 7)]
  return out


def nets_jobs(q, seed):
  import gencases
  cfg = ('CONSTANTS\nCaseFile = "cases.json"\nMaxCalls = %d\nINVARIANTS WellFormed AllUsed OneOwner DepthLaw CountLaw\n')
  job = lambda calls, data, **kw: dict(kind="trace", adapter="a_nets", spec="HkNets", cfg=cfg % calls, data=data, **kw)
  out = [job(1, gencases.nets_published([n])) for n in [18, 34, 50, 101, 152, 200, "mobile"]]
  for i in range(8 if q else 32):
    out.append(job(2 if q else 3, gencases.nets(f"{seed}.{i}", 8 if q else 40), simulate=16 if q else 400, depth=6,
                   tlcseed=seed * 100 + i))
  return out


def types_jobs(q, seed):
  def job(size, wide, hooks, real=False, **kw):
    cfg = (f"CONSTANTS\nDepth = {size}\nWide = {str(wide).upper()}\nHooks = {str(hooks).upper()}\n"
           f"Free = {str('simulate' in kw).upper()}\nINVARIANTS JoinLaws TypesKept\n")
    return dict(kind="trace", adapter="a_types", spec="HkTypes", cfg=cfg, wide=wide, real=real, **kw)
  out = [job(1, wide, True) for wide in (False, True)]
  for i in range(6 if q else 30):
    out.append(job(3 if i % 3 else 5, i % 2 == 1, True, real=i % 3 == 0, simulate=(60 if i % 3 == 0 else 200) if q else 800, depth=8,
                   tlcseed=seed * 100 + i))
  if not q:
    out += [job(2, wide, True, share=(i, 8)) for wide in (False, True) for i in range(8)]
  return out


def dot_jobs(q, seed):
  def job(size, raises, **kw):
    cfg = (f"CONSTANTS\nDepth = {size}\nRaises = {str(raises).upper()}\nFree = {str('simulate' in kw).upper()}\n"
           "INVARIANTS DrawnOnce Nested Acyclic Closed\n")
    return dict(kind="trace", adapter="a_dot", spec="HkDot", cfg=cfg, **kw)
  out = [job(2, True)]
  for i in range(7 if q else 40):
    out.append(job((4, 7, 10, 14)[i % 4], i % 3 == 0, simulate=100 if q else 400, depth=20, tlcseed=seed * 100 + i))
  if not q:
    out += [job(3, False, share=(i, 8)) for i in range(8)]
  return out


TRACES = dict(C30=dot_jobs, C29=types_jobs, C28=nets_jobs, C27=init_jobs, C22=summary_jobs, C13=mapping_jobs, C14=filter_jobs, C16=ema_jobs, C17=batchnorm_jobs, C18=unroll_jobs, C19=cores_jobs, C20=move_jobs, C21=conv_jobs, C24=layers_jobs,
              C25=norm_jobs, C26=stats_jobs)


def info(pid):
  import claims
  return claims.CLAIMS[pid]


def run(job):
  return globals()[job["kind"] + "_job"](job)


def replay_file(rep):
  import core
  import terms
  if rep["kind"] == "core":
    exp, _ = core.predict([rep["case"]])
    status, mm, _, _ = core.replay(rep["case"], exp[0], terms.Evaluator(), frozen=rep.get("frozen", False))
    return str(mm) if status == "bad" else None
  if rep["kind"] == "threads":
    import threads
    return str(threads.run(rep["case"], rep["outs"], terms.Evaluator(), **rep["run"])[1] or "")
  if rep["kind"] == "trace":
    import importlib
    bad = importlib.import_module(rep["job"]["adapter"]).play(rep["beh"], rep["job"], rep["ix"])
    return f"{bad[0]}: {bad[1]}" if bad else None
  r = run(rep["job"])
  return "; ".join(f"{v['clause']}: {v['detail']}" for v in r.get("violations", []))
