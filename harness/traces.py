"""Behaviours that TLC generates from a nondeterministic specification, replayed step by step."""
import tlc


def behaviours(job):
  """Runs TLC (exhaustively or simulating) and returns (histories, tlc result)."""
  args = ()
  if job.get("simulate"):
    args = ("-simulate", f"num={job['simulate']}", "-depth", str(job["depth"]), "-seed", str(job["tlcseed"]))
  cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + job["cfg"]
  r = tlc.run(job["spec"], cfg, data=job.get("data"), workers=job.get("workers", 1), args=args,
              heap=job.get("heap", "2500m"), timeout=job.get("timeout", 800))
  if not r["ok"] and not (job.get("simulate") and r["rc"] == 0):
    raise tlc.TLCError(r["stdout"][-6000:])
  if not r["states"]:
    import re
    m = re.findall(r"(?:The number of states generated|generated): ?(\d+)", r["stdout"])
    r["states"] = r["distinct"] = int(m[-1]) if m else len(r["lines"])
  return r["lines"], r
