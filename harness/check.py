"""Decides one property: check.py <property> [--replay FILE].

Jobs (see suites.py) run in worker processes.  Each job has TLC compute the
specified behaviours (checking the specification's invariants on the way) and
replays them on the library imported from /repo, or records executions of the
library and has TLC judge them.  Exit 0: everything explored agreed.  Exit 1: a
VIOLATION line.  Anything else is a failure of the machinery itself.
"""
import concurrent.futures as cf
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def run_job(job):
  """In a worker. Returns the job's result; machinery failures are marked."""
  import warnings
  warnings.filterwarnings("ignore")
  import suites
  try:
    return suites.run(job)
  except suites.MachineryError as e:
    return dict(machinery=f"{job.get('kind')}: {e}")
  except Exception:  # pylint: disable=broad-except
    return dict(machinery=f"{job.get('kind')}: {traceback.format_exc()}")


def known(pid):
  """Listed findings of this property: their texts by clause key."""
  out = {}
  path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
  if os.path.exists(path):
    for line in open(path):
      if line.startswith(f"finding: property={pid} "):
        key, _, text = line[len(f"finding: property={pid} "):].strip().partition(" ")
        out[key] = text
  return out


def main():
  pid = sys.argv[1]
  import suites
  if "--replay" in sys.argv:
    path = sys.argv[sys.argv.index("--replay") + 1]
    res = suites.replay_file(json.load(open(path)))
    print(res or "the replay agrees")
    if res:
      print(f"VIOLATION property={pid} replay={path}")
    sys.exit(1 if res else 0)
  tier = os.environ.get("VERIF_TIER", "quick")
  seed = int(os.environ.get("VERIF_SEED", "1"))
  t0 = time.time()
  jobs = suites.jobs(pid, tier, seed)
  ctx = multiprocessing.get_context("spawn")
  results, machinery = [], []
  with cf.ProcessPoolExecutor(max_workers=8, mp_context=ctx) as pool:
    futs = [pool.submit(run_job, j) for j in jobs]
    for j, f in zip(jobs, futs):
      try:
        r = f.result(timeout=max(60, suites.LIMIT[tier] - (time.time() - t0)))
      except cf.process.BrokenProcessPool:
        r = dict(violations=[dict(clause="crash", detail="the worker process running the library died",
                                  replay=dict(kind="job", job=j))])
      except cf.TimeoutError:
        r = dict(violations=[dict(clause="hang", detail="the library did not finish the job in time",
                                  replay=dict(kind="job", job=j))])
      if "machinery" in r:
        machinery.append(r["machinery"])
      else:
        results.append(r)
    for p in list((pool._processes or {}).values()):  # pylint: disable=protected-access
      if any(not f.done() for f in futs):
        p.kill()
  cov = dict(states=0, transitions=0, traces_validated_against_impl=0)
  samples, viols, actions, extra = [], [], {}, {}
  for r in results:
    for k in cov:
      cov[k] += r.get(k, 0)
    for k, v in r.get("actions", {}).items():
      actions[k] = actions.get(k, 0) + v
    for k, v in r.get("counts", {}).items():
      extra[k] = extra.get(k, 0) + v
    samples.extend(r.get("samples", [])[:1])
    viols.extend(r.get("violations", []))
  cov["samples"] = samples[:4]
  if actions:
    cov["actions_taken"] = actions
  cov.update(extra)
  listed = known(pid)
  new = []
  for v in viols:
    if v.get("key") in listed:
      print(f"KNOWN-FINDING: property={pid} {listed[v['key']]}")
    else:
      new.append(v)
  info = suites.info(pid)
  os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
  ev = dict(property=pid, tier=tier, seed=seed, level=info["level"], coverage=cov,
            assumptions=info["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(new))
  with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
    json.dump(ev, f, indent=1)
    f.write("\n")
  if new:
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    for i, v in enumerate(new[:5]):
      path = os.path.join(d, f"{pid}-{i}.json")
      with open(path, "w") as f:
        json.dump(v.get("replay"), f)
      print(f"{v['clause']}: {v['detail']}")
      print(f"VIOLATION property={pid} replay={path}")
    sys.exit(1)
  if machinery:
    print("\n".join(machinery), file=sys.stderr)
    sys.exit(2)
  print(f"{pid} {tier}: {cov['traces_validated_against_impl']} behaviours agree, "
        f"{cov['states']} states, {ev['wall_s']} s")


if __name__ == "__main__":
  main()
