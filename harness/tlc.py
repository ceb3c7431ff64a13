"""Runs TLC on a specification with a generated configuration."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TLCError(Exception):
  pass


def run(module, cfg, *, data=None, data_name="cases.json", workers=1, heap="1500m", timeout=800,
        args=(), keep=False):
  """Returns dict(stdout, lines=OUT json list, states, distinct, ok, coverage)."""
  d = tempfile.mkdtemp(prefix="vtlc_")
  try:
    for f in os.listdir(SPEC):
      if f.endswith(".tla"):
        shutil.copy(os.path.join(SPEC, f), d)
    if data is not None:
      with open(os.path.join(d, data_name), "w") as f:
        json.dump(data, f)
    with open(os.path.join(d, "run.cfg"), "w") as f:
      f.write(cfg)
    cmd = ["tlc", "-config", "run.cfg", "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", *args, module + ".tla"]
    env = dict(os.environ)
    env["JDK_JAVA_OPTIONS"] = f"-Xmx{heap} -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Xss64m"
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    out = p.stdout
    lines = []
    for line in out.splitlines():
      if line.startswith('"OUT '):
        lines.append(json.loads(json.loads(line)[4:]))
    states = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", out)
    gen, dist = (tuple(int(x.replace(",", "")) for x in states[-1]) if states else (0, 0))
    ok = p.returncode == 0 and "No error has been found" in out
    cov = {}
    for name, a, b in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
      cov[name] = cov.get(name, 0) + int(b)
    return dict(stdout=out, lines=lines, states=gen, distinct=dist, ok=ok, rc=p.returncode,
                coverage=cov)
  finally:
    if not keep:
      shutil.rmtree(d, ignore_errors=True)
