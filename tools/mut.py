"""Tries changes by hand: mut.py CHECKS FILE.py: FILE lists MUTS = [(id, checks, [(file, old, new)])].

Each is applied to a scratch copy of /repo and the named checks are run against the copy.
"""
import os, shutil, subprocess, sys, tempfile
def main():
  d = {}
  exec(open(sys.argv[1]).read(), d)
  only = sys.argv[2:]
  for name, checks, edits in d["MUTS"]:
    if only and name not in only: continue
    t = tempfile.mkdtemp(prefix="mut_")
    try:
      shutil.copytree(os.environ.get("MUT_BASE", "/repo") + "/haiku", t + "/haiku", ignore=shutil.ignore_patterns("__pycache__"))
      for f, old, new in edits:
        s = open(t + "/" + f).read()
        assert s.count(old) == 1, (name, f, s.count(old), old)
        open(t + "/" + f, "w").write(s.replace(old, new))
      for c in checks.split():
        p = subprocess.run(["bash", "/verif/check.sh", c], env=dict(os.environ, HK_REPO=t), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        lines = p.stdout.strip().splitlines()
        print(name, c, {0: "MISSED", 1: "caught"}.get(p.returncode, f"exit {p.returncode}"),
              " / ".join(lines[-2 if p.returncode == 2 else 0:][:2])[:230], flush=True)
    finally:
      shutil.rmtree(t)
main()
