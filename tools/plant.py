"""Keeps planted changes: plant.py [--fast] DEF.py [ID...] (run by hand; checks never use it).

A DEF file sets PLANTS, a list of dict(id, prop, edits=[(file, old, new)], demo, needs, breaks).
Applies the edits to a scratch copy of /repo, confirms that the demonstration passes without and
fails with them and that the stable tests still pass, writes seeded/<id>/ and runs the check.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
export PYTHONPATH="$PWD" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(*a, **k):
  return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(d, fast):
  out = f"{HERE}/seeded/{d['id']}"
  t = tempfile.mkdtemp(prefix="plant_")
  try:
    sh("git", "clone", "-q", "/repo", t + "/r")
    repo = t + "/r"
    os.makedirs(t + "/d")
    open(t + "/d/demo.py", "w").write(d["demo"].lstrip())
    open(t + "/d/demo.sh", "w").write(SH)
    r0 = sh("bash", t + "/d/demo.sh", cwd=repo)
    for f, old, new in d["edits"]:
      s = open(f"{repo}/{f}").read()
      if s.count(old) != 1:
        return print(d["id"], "NOMATCH", s.count(old), old[:60], flush=True)
      open(f"{repo}/{f}", "w").write(s.replace(old, new))
    diff = sh("git", "-C", repo, "diff").stdout
    r1 = sh("bash", t + "/d/demo.sh", cwd=repo)
    print(d["id"], "demo clean", r0.returncode, "patched", r1.returncode, (r1.stdout.strip().splitlines() or [""])[-1][:150], flush=True)
    if r0.returncode:
      return print(r0.stdout[-800:])
    if not r1.returncode:
      return print("   NOT KEPT")
    if not fast:
      script = open("/opt/vp/test.sh").read().replace("/repo", repo).replace("-n 8", "-n 6")
      open(t + "/test.sh", "w").write(script)
      sh("bash", t + "/test.sh", t + "/o.json")
      bad = sorted(set(BASE) - set(json.load(open(t + "/o.json"))["passed"]))
      print("   stable tests broken:", len(bad), bad[:3], flush=True)
      if bad:
        return print("   NOT KEPT")
      os.makedirs(out, exist_ok=True)
      for f in ("demo.py", "demo.sh"):
        shutil.copy(f"{t}/d/{f}", out)
      open(out + "/patch.diff", "w").write(diff)
      json.dump(dict(property=d["prop"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
    c = sh("bash", f"{HERE}/check.sh", d["prop"], cwd=HERE, env=dict(os.environ, HK_REPO=repo))
    print("   check", d["prop"], "exit", c.returncode, "|", " / ".join(c.stdout.strip().splitlines()[:2])[:260], flush=True)
  finally:
    shutil.rmtree(t)


def main():
  args = [a for a in sys.argv[1:] if a != "--fast"]
  d = {}
  exec(open(args[0]).read(), d)
  for p in d["PLANTS"]:
    if len(args) == 1 or p["id"] in args[1:]:
      plant(p, "--fast" in sys.argv)


main()
