"""C17: the parse tree mirrors the nesting of flow-control blocks."""
import itertools
import random
import re

import core
import fmt
import gen
from cmakelang import lex, parse

SPEC = "Blocks.tla"
LEVEL = "model_checking"


def record(text):
  """the tree the real parser builds, as pre-order events"""
  tokens = lex.tokenize(text)
  pos = {}
  p = 1
  for tok in tokens:
    pos[id(tok)] = p
    p += len(tok.spelling)
  keep = list(tokens)
  tree = parse.parse(tokens, parse.ParseContext())
  ev, leaf = [], []

  def first(node):
    for ch in node.children:
      if isinstance(ch, lex.Token):
        return ch
      out = first(ch)
      if out is not None:
        return out
    return None

  def walk(node):
    if isinstance(node, lex.Token):
      leaf.append(node.spelling)
      return
    kind = node.node_type.name
    if kind == "BODY":
      ev.append([1, 0])
    elif kind == "FLOW_CONTROL":
      ev.append([3, 0])
    elif kind == "STATEMENT":
      ev.append([5, pos.get(id(first(node)), -1)])
    elif kind == "ATWORDSTATEMENT":
      ev.append([6, pos.get(id(first(node)), -1)])
    end = None
    for ch in node.children:
      walk(ch)
      if kind == "STATEMENT" and not isinstance(ch, lex.Token) and ch.node_type.name == "RPAREN":
        tok = first(ch)
        end = pos.get(id(tok), -1) + 1
    if kind == "BODY":
      ev.append([2, 0])
    elif kind == "FLOW_CONTROL":
      ev.append([4, 0])
    elif kind == "STATEMENT":
      ev.append([7, end if end is not None else -1])

  walk(tree)
  del keep
  return ev, "".join(leaf)


def message(fun, *args):
  """the error message of the real code (UserError keeps it in .msg)"""
  try:
    return fun(*args), None
  except Exception as ex:  # pylint: disable=broad-except
    return None, "%s: %s" % (type(ex).__name__, getattr(ex, "msg", None) or str(ex))


class Blocks(gen.Gen):
  """block-heavy listfiles"""

  def stmt(self, cmd=None):
    return gen.Gen.stmt(self, self.r.choice(["foo", "unknown_fn", "bar", "endx", "elsey", "ifdef", "set", "message", "return", "break", "continue", "list_x", "block", "endblock", "BEGIN", "endfoo", "end",
                                                        "finally", "switch", "case", "do", "for", "EndBlock", "elseifx", "end_if", "try", "then", "next"]))

  def cond(self):
    return gen.Gen.cond(self)

  def items(self, depth=0, n=None):
    r = self.r
    if n is not None and depth < 5 and r.random() < 0.4:
      return self.flow(depth)
    out = gen.Gen.items(self, depth, n)
    if depth and r.random() < 0.05:
      # parts of an if() that are not those of the enclosing block
      out += r.choice(["else()", "elseif(x)", "ELSE( )", "endif()", "endwhile()", "endfunction(x)"]) + "\n"
    return out


BREAK = re.compile(r"[()]|\b(?:end|else)?(?:if|foreach|while|function|macro|else)\b", re.I)


def damage(r, text):
  """remove, duplicate or exchange something structural"""
  spots = list(BREAK.finditer(text))
  if not spots:
    return text + r.choice([")", "(", "if(a)\n", "foo"])
  m = r.choice(spots)
  how = r.choice(["cut", "cut", "dup", "swap", "head", "tail"])
  if how == "head":
    return text[:m.start()]
  if how == "tail":
    return text[m.end():]
  if how == "cut":
    return text[:m.start()] + text[m.end():]
  if how == "dup":
    return text[:m.end()] + m.group() + text[m.end():]
  o = r.choice(["if(a)", "endif()", "endforeach()", "macro(x)", "else()", "(", ")"])
  return text[:m.start()] + "\n" + o + "\n" + text[m.start():]


PROFILES = [
    ("blocks", dict(more=0), 0),
    ("nocomment", dict(more=0, comments=False), 0),
    ("damaged", dict(more=0, comments=False, max_items=3), 1),
    ("damaged2", dict(more=0, max_items=3, bracket=False, inner_comments=False), 2),
]


# every short sequence of these
PIECES = ["if(a)", "elseif(b)", "else()", "endif()", "foreach(i IN LISTS x)", "endforeach()", "While(x)", "endwhile()",
          "function(f a)", "endfunction()", "macro(m)", "ENDMACRO()", "foo(a)", "foo(", ")", "@at@"]


def sequences(n):
  for k in range(1, n + 1):
    for seq in itertools.product(PIECES[:9 if k == n and n > 3 else None], repeat=k):
      yield "\n".join(seq) + "\n"


def shaped(r, depth=0):
  """nested blocks with branches in any order and number"""
  out = []
  for _ in range(r.choice([0, 1, 1, 2]) if depth else r.choice([1, 1, 2])):
    x = r.random()
    if depth > 3 or x < 0.25:
      out.append(r.choice(["foo(a)", "bar()", "@at@", "return()", "# note", "END(if)", "elseifs(a)"]))
    elif x < 0.75:
      out.append(r.choice(["if(a)", "IF( a )", "If(a)"]))
      out += shaped(r, depth + 1)
      for _ in range(r.choice([0, 1, 1, 2, 3])):
        out.append(r.choice(["else()", "else(a)", "ELSE()", "Else()", "elseif(b)", "ELSEIF(b)", "elseIf(b)", "elseif()"]))
        out += shaped(r, depth + 1)
      out.append(r.choice(["endif()", "endif(a)", "ENDIF()", "EndIf()"]))
    else:
      word = r.choice(["foreach", "while", "function", "macro"])
      start = r.choice([word, word.upper(), word.title()])
      out.append("%s(%s)" % (start, r.choice(["a", "a b", "i IN LISTS x"])))
      out += shaped(r, depth + 1)
      if r.random() < 0.1:
        out.append(r.choice(["endif()", "else()", "endmacro()", "endwhile()", "elseif(a)"]))
      out.append("%s(%s)" % (r.choice(["end" + word, "END" + word.upper(), "End" + word.title()]), r.choice(["", "a"])))
  return out


def work_shaped(seed):
  r = random.Random(seed)
  lines = shaped(r)
  if r.random() < 0.2 and lines:
    del lines[r.randrange(len(lines))]
  return measure(dict(profile="shaped", text=r.choice(["\n", "\n", " ", "\n\n  "]).join(lines) + "\n"))


def work_text(text):
  return measure(dict(profile="sequence", text=text))


def work(job):
  seed, (name, opts, hurt) = job
  r = random.Random(seed)
  text = Blocks(r, **opts).file()
  for _ in range(hurt):
    text = damage(r, text)
  if r.random() < 0.1:
    text = "\ufeff" + text
  return measure(dict(profile=name, text=text))


def measure(rec):
  val, err = core.guarded(message, record, rec["text"])
  rec = dict(rec, ev=[], leaf="", err=err, loc=[], out=0)
  if err is None:
    val, err = val
    rec["err"] = err
    if err is None:
      rec["ev"], rec["leaf"] = val
  if rec["err"] is not None:
    rec["loc"] = [[int(a), int(b)] for a, b in re.findall(r"(\d+)(?::| col |, col(?:umn)? )(\d+)", rec["err"])][:60]
    out, _, err = fmt.run_format({}, rec["text"])
    rec["out"] = int(err is None)
  return rec


def to_case(rec):
  return dict(x=core.cp(rec["text"]), leaf=core.cp(rec["leaf"]), ev=rec["ev"], err=int(rec["err"] is not None),
              loc=rec["loc"], out=rec["out"])


def run(check):
  jobs = []
  for prof in PROFILES:
    jobs += [(s, prof) for s in check.seeds(check.n(500, 8000), prof[0])]
  recs = core.pmap(work, jobs)
  recs += core.pmap(work_shaped, check.seeds(check.n(4000, 30000), "shaped"))
  recs += core.pmap(work_text, list(sequences(check.n(2, 4))))
  if check.tier == "quick":
    r = random.Random(check.seed)
    recs += core.pmap(work_text, ["\n".join(r.choice(PIECES) for _ in range(r.randint(3, 8))) + "\n" for _ in range(1200)])
  check.validate(SPEC, [to_case(r) for r in recs], recs)
  for r in recs[:2]:
    check.sample({k: r[k] for k in ("profile", "text", "ev")})
  return check.finish(LEVEL,
                      "random listfiles with nested blocks, half of them with a structural damage, nested blocks with branches in any order, plus all sequences of up to 2 (thorough: 4) pieces of block structure; non-trivial: at least one block command",
                      evaluations=len(recs), distinct=len(set(r["text"] for r in recs if re.search(r"(?i)\b(if|foreach|while|function|macro)\b", r["text"]))))


def replay(check, rec):
  rec = measure(rec)
  check.validate(SPEC, [to_case(rec)], [rec])
  print(rec["text"], "-----", rec["ev"], rec["err"], sep="\n")
  return check.finish(LEVEL, "replay of one case")
