"""Replays HkDot on hk.experimental.to_dot and abstract_to_dot, reading the DOT text they give."""
import collections
import html
import re

import haiku as hk
import jax
from jax import lax
import jax.numpy as jnp
import numpy as np


class Failed(Exception):
  pass


def run_body(stmts, regs, mods, params):
  """Executes statements on registers; blocks are nested lists."""
  for s in stmts:
    op = s["op"]
    r = [regs[i - 1] for i in s.get("regs", [])]
    if op in ("neg", "sin", "add", "mul"):
      regs.append(getattr(lax, op)(*r))
    elif op == "broadcast_in_dim":
      regs.append(lax.broadcast(r[0], (3,)))
    elif op == "sort":
      regs.extend(lax.sort(tuple(r), num_keys=1))
    elif op == "param":
      regs.append(hk.get_parameter("w", [3], init=hk.initializers.Constant(len(params) + 1.)))
    elif op == "new":
      mods.append(Mod(name=s["name"]))
    elif op == "call":
      getattr(mods[s["mod"] - 1], s["method"])(s["body"], regs, mods, params)
    elif op == "raise":
      raise Failed()


class Mod(hk.Module):

  def __call__(self, *args):
    return run_body(*args)

  def step(self, *args):
    return run_body(*args)


def nest(hist):
  """The flat program with its blocks as nested lists; open blocks end with the program."""
  top = []
  stack = [top]
  for h in hist:
    if h["op"] == "leave":
      stack.pop()
      continue
    h = dict(h)
    stack[-1].append(h)
    if h["op"] == "call":
      h["body"] = []
      stack.append(h["body"])
  return top


# ---------------------------------------------------------------- DOT text

TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|->|--|[{}\[\];,=]|"(?:\\.|[^"\\])*"|<|[A-Za-z_0-9.\-]+|.', re.S)


def tokens(text):
  i = 0
  while i < len(text):
    m = TOKEN.match(text, i)
    t = m.group()
    i = m.end()
    if t == "<":
      depth, j = 1, i
      while depth:
        depth += {"<": 1, ">": -1}.get(text[j], 0)
        j += 1
      yield "html", text[i:j - 1]
      i = j
    elif not t.isspace() and not t.startswith("//") and not t.startswith("/*"):
      yield "t", t[1:-1] if t[0] == '"' else t


def lines_of(label):
  parts = re.split(r"<br\s*/?>", label)
  return [html.unescape(re.sub(r"<[^>]*>", "", p)).strip() for p in parts]


def parse(text):
  """Returns (title, nodes {id: [(lines, cluster)]}, edges [(a, b)], clusters [(parent, title)])."""
  toks = list(tokens(text))
  pos = 0
  nodes, edges, clusters = collections.defaultdict(list), [], []
  titles = {}
  stack = [0]
  if [t[1] for t in toks[:1]] != ["digraph"]:
    raise ValueError("not a digraph")
  while toks[pos][1] != "{":
    pos += 1
  pos += 1
  while pos < len(toks):
    kind, t = toks[pos]
    nxt = toks[pos + 1] if pos + 1 < len(toks) else (None, None)
    if t == "subgraph":
      clusters.append([stack[-1], ""])
      stack.append(len(clusters))
      while toks[pos][1] != "{":
        pos += 1
      pos += 1
    elif kind == "t" and t == "}":
      stack.pop()
      pos += 1
    elif kind == "t" and t in ";,":
      pos += 1
    elif nxt == ("t", "->"):
      edges.append((t, toks[pos + 2][1]))
      pos += 3
    elif nxt == ("t", "="):
      if t == "label":
        titles[stack[-1]] = lines_of(toks[pos + 2][1])
      pos += 3
    elif nxt == ("t", "["):
      attrs = {}
      pos += 2
      while toks[pos] != ("t", "]"):
        if toks[pos][1] in (",", ";"):
          pos += 1
          continue
        attrs[toks[pos][1]] = toks[pos + 2][1]
        pos += 3
      pos += 1
      nodes[t].append((lines_of(attrs.get("label", t)), stack[-1]))
    else:
      raise ValueError(f"unexpected {t!r} in the text")
  if stack:
    raise ValueError("unbalanced braces")
  for i, c in enumerate(clusters):
    c[1] = " ".join(titles.get(i + 1, []))
  return " ".join(titles.get(0, [])), nodes, edges, clusters


def paths(clusters):
  out = {0: ()}
  for i, (parent, title) in enumerate(clusters):
    out[i + 1] = (*out[parent], title)
  return out


def shape_of_tree(clusters, content):
  """The cluster tree without an order."""
  def tree(i):
    return (clusters[i - 1][1] if i else "", tuple(sorted(content[i])),
            tuple(sorted(tree(j + 1) for j, c in enumerate(clusters) if c[0] == i)))
  return tree(0)


def expected(b):
  where = paths([(c["parent"], c["title"]) for c in b["clusters"]])
  keys, out_edges = [], collections.Counter()
  content = collections.defaultdict(list)
  args, captures = collections.Counter(), collections.Counter()
  for n, node in enumerate(b["nodes"]):
    ins = []
    for e in b["edges"][n]:
      if e["kind"] == "op":
        ins.append(keys[int(e["label"]) - 1])
        out_edges[int(e["label"]) - 1] += 1
      elif e["kind"] == "arg":
        ins.append(f"{e['label']} {e['type']}")
        args[ins[-1]] += 1
      else:
        ins.append(e["label"])
        captures[e["id"], e["label"]] += 1
    own = [node["prim"], *node["types"]]
    content[node["cl"]].append(" ".join(own))
    keys.append(repr((own, sorted(b["places"][n]), where[node["cl"]], sorted(ins))))
  tree = shape_of_tree([(c["parent"], c["title"]) for c in b["clusters"]], content)
  caps = collections.Counter()
  for (_, label), n in captures.items():
    caps[label, n] += 1
  return dict(tree=tree, nodes=collections.Counter((k, out_edges[i]) for i, k in enumerate(keys)), args=args, captures=caps)


def drawn(text, prims):
  title, nodes, edges, clusters = parse(text)
  where = paths(clusters)
  ins, outs = collections.defaultdict(list), collections.Counter()
  for a, b in edges:
    ins[b].append(a)
    outs[a] += 1
  ops, args, captures = {}, collections.Counter(), collections.Counter()
  labels = {}
  content = collections.defaultdict(list)
  first = collections.Counter()
  for i, decls in nodes.items():
    if any(d != decls[0] for d in decls):
      return None, f"node {i} is declared twice differently: {decls}"
    lines, cl = decls[0]
    k = next((j for j, l in enumerate(lines) if l in prims), None)
    if k is not None:
      if len(decls) > 1:
        return None, f"node {lines} is declared twice"
      ops[i] = (lines[k:], lines[:k], cl)
      content[cl].append(" ".join(lines[k:]))
    elif any(l.startswith("args[") for l in lines):
      reuse = lines[0] == "(reuse)"
      labels[i] = " ".join(lines[1:] if reuse else lines)
      if ins[i] or outs[i] != 1 or cl:
        return None, f"{labels[i]} should be outside the clusters and feed one operand, feeds {outs[i]}"
      args[labels[i]] += 1
      first[labels[i]] += not reuse
    else:
      labels[i] = " ".join(lines)
      if ins[i] or cl:
        return None, f"captured value {lines} should be outside the clusters with no operands"
      captures[labels[i], outs[i]] += 1
  for l, n in first.items():
    if n != 1:
      return None, f"{l} has {n} copies that are not marked (reuse)"
  for a, b in edges:
    for e in (a, b):
      if e not in nodes:
        return None, f"an edge {'from' if e == a else 'to'} a node that is not drawn (other end: {nodes.get(b if e == a else a)})"
  memo = {}
  def key(i):
    if i in labels:
      return labels[i]
    if i not in memo:
      memo[i] = None
      own, places, cl = ops[i]
      memo[i] = repr((own, sorted(places), where[cl], sorted(str(key(j)) for j in ins[i])))
    return memo[i]
  return dict(tree=shape_of_tree(clusters, content), nodes=collections.Counter((key(i), outs[i]) for i in ops),
              args=args, captures=captures), title


PRIMS = {"neg", "sin", "add", "mul", "broadcast_in_dim", "sort"}
WORDS = dict(tree="clusters and what they hold", nodes="nodes (operation, place, cluster, operands)", args="arguments",
             captures="captured values")


def difference(text, should):
  try:
    got, title = drawn(text, PRIMS)
  except (ValueError, IndexError) as e:
    return f"the text cannot be read: {e}"
  if got is None:
    return title
  for part in ("tree", "args", "captures", "nodes"):
    if got[part] != should[part]:
      if part == "tree":
        return f"{WORDS[part]}: {got[part]}, should be {should[part]}"
      return f"{WORDS[part]}: has {dict(got[part] - should[part])}, should have {dict(should[part] - got[part])}"
  return None


def pack(result, regs):
  if result == "one":
    return regs[-1]
  if result == "pair":
    return regs[-1], {"q": [regs[-2]]}
  return {"p": regs[-1], "q": [regs[-2]]}


def play(b, job, ix):
  program = nest(b["hist"])
  s, t = np.array(2.5, np.float32), np.array([3., 1., 2.], np.float32)
  x, y = jnp.array([1., -2., .5]), {"k": [jnp.array(.25)], "m": jnp.array([.1, .7, -.3])}
  wrap = {}

  def body(x, y):
    mods, regs = [], [x, y["k"][0], y["m"], s, t]
    run_body(program, regs, mods, [])
    return pack(b["result"], regs)

  def quiet(x, y):
    try:
      return body(x, y)
    except Failed:
      return x

  def inside(x, y):
    return (wrap["f"] if wrap else quiet)(x, y)

  where = f"{b['mode']}, {b['result']}, " + " ".join(
      h["op"] + "(" + ",".join(str(h[k]) for k in ("regs", "name", "mod", "method") if k in h) + ")" for h in b["hist"]) + ": "
  t0 = hk.transform(inside if b["mode"] == "inside" else quiet)
  params = t0.init(jax.random.PRNGKey(1), x, y)
  before = t0.apply(params, None, x, y)
  should = expected(b)
  scopes = ix % 2 == 1
  was = hk.experimental.profiler_name_scopes(scopes)
  try:
    for name in ("to_dot", "abstract_to_dot"):
      draw = getattr(hk.experimental, name)
      abstract = name == "abstract_to_dot" and ix % 3
      ins = jax.tree_util.tree_map(lambda v: jax.ShapeDtypeStruct(v.shape, v.dtype), (x, y)) if abstract else (x, y)
      if b["mode"] == "inside":
        wrap["f"] = draw(body)
        ask = lambda: hk.transform(inside).apply(params, None, *ins)
      else:
        ask = lambda: draw(hk.transform(body).apply)(params, None, *ins)
      for _ in range(2):
        try:
          text = ask()
        except Failed:
          if b["outcome"] != "raise":
            raise
          text = None
        if (text is None) != (b["outcome"] == "raise"):
          return "outcome", where + f"{name} should raise what the function raises"
        if text is not None:
          bad = difference(text, should)
          if bad:
            return "drawing", where + f"{name}: {bad}"
      now = hk.experimental.profiler_name_scopes(scopes)
      if now != scopes:
        return "scopes", where + f"{name} leaves profiler_name_scopes at {now}, it was {scopes}"
      wrap.clear()
      after = t0.apply(params, None, x, y)
      if not jax.tree_util.tree_all(jax.tree_util.tree_map(lambda u, v: np.array_equal(u, v), before, after)):
        return "after", where + f"{name} changes what the function computes afterwards"
      small = draw(lambda v: lax.neg(v))(x)
      bad = difference(small, dict(tree=("", ("neg f32[3]",), ()), args=collections.Counter({"args[0] f32[3]": 1}), captures=collections.Counter(),
                                   nodes=collections.Counter({(repr((["neg", "f32[3]"], ["output"], (), ["args[0] f32[3]"])), 0): 1})))
      if bad:
        return "after", where + f"the next drawing is wrong: {bad}"
  finally:
    hk.experimental.profiler_name_scopes(was)
  return None
