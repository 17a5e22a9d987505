"""C15, C16: configurations, written as files in all the ways there are, loaded
by the real tools in a scratch directory; what is effective is recorded."""
import io
import json
import keyword
import os
import random
import shutil
import sys
import tempfile

import core

OPTIONS = json.load(open(os.path.join(core.SPECS, "options.json")))
BYNAME = {o["n"]: o for o in OPTIONS}
SECTIONS = ["parse", "format", "markup", "lint", "encode", "misc"]
CHOICES = {"fractional_tab_policy": ["use-space", "round-up"], "dangle_align": ["prefix", "prefix-indent", "child"],
           "line_ending": ["windows", "unix", "auto"], "command_case": ["lower", "upper", "canonical", "unchanged"],
           "keyword_case": ["lower", "upper", "unchanged"], "input_encoding": ["utf-8", "latin-1", "cp1252"],
           "output_encoding": ["utf-8", "latin-1", "utf-16"]}
STRINGS = ["*", "-", ".", ")", "x", "#<", "no", "yes", "off", "null", "~", "1e3", "0x1F", "12:30", "2001-01-01", "", " ", " a ", "a b",
           "tab\tx", "line\nline", "\"q\"", "'q'", "back\\slash", "[a-z]+", "^\\s*[`~]{3}[^`\\n]*$", "# x", "x # y", "a: b", "- a", "{a}", "[a]", "%x",
           "@x", "!x", "&x", "*x", "é", "日本", "\u2028x", "a" * 90, "word " * 30, "true", "3", "3.0", "=", "|", ">", "?", ": ", "{{x}}", "\\u0041", "''", '"""']
COMMANDS = ["foo", "my_cmd", "other_cmd", "x", "add_library", "z9"]


def spec_value(r, depth=0, name=None):
  out = {}
  if r.random() < 0.7:
    out["kwargs"] = {r.choice(["SOURCES", "DEPENDS", "HEADERS", "-w", "NAME"]):
                     (spec_value(r, depth + 1) if depth == 0 and r.random() < 0.2 else r.choice(["*", "+", "?", 1, 2, 0, "2+"])) for _ in range(r.randint(0, 3))}
  if r.random() < 0.5:
    out["flags"] = r.sample(["BAR", "BAZ", "QUX", "NO"], r.randint(0, 3))
  if r.random() < 0.4:
    out["pargs"] = r.choice(["*", "+", 1, 2, "1+"])
  if name == "z9":
    # (specifications merge, and flags don't go with lists of groups)
    out.pop("flags", None)
    out["pargs"] = [{"nargs": r.choice(["*", 1, "+"]), "flags": ["A"]}, r.choice(["*", 1])]
  return out


def value(r, name):
  d = BYNAME[name]["d"]
  if name == "additional_commands":
    return {c: spec_value(r, 0, c) for c in r.sample(COMMANDS, r.randint(0, 3))}
  if name == "override_spec":
    return {}
  if name in ("vartags", "proptags"):
    return [(r.choice([".*_COMMAND", "X.*", "FOO|BAR", "a\\.b"]), r.sample(["cmdline", "file-list"], r.randint(1, 2))) for _ in range(r.randint(0, 3))]
  if name == "layout_passes":
    return {n: [(i, r.random() < 0.5) for i in range(r.randint(1, 4))] for n in r.sample(["StatementNode", "ArgGroupNode", "PargGroupNode", "KwargGroupNode", "ParenGroupNode"], r.randint(0, 2))}
  if name == "per_command":
    return {c: {"command_case": r.choice(["upper", "lower"])} for c in r.sample(["foo", "set", "ExternalProject_Add", "fetchcontent_declare", "add_library"], r.randint(0, 3))}
  if name in CHOICES:
    return r.choice(CHOICES[name])
  if name == "literal_comment_pattern":
    return r.choice([None, "^x", r"\s*# \|", "a b", "é", r"\\"])
  if name in ("fence_pattern", "ruler_pattern", "explicit_trailing_pattern"):
    return r.choice(["#<", "x+", "^~~~$", r"^\s*([`~]{3}[`~]*)(.*)$", "é", "a b  c", r"[^\w\s.*]{3}$", "#!"])
  if name.endswith("_pattern"):
    return r.choice(["[a-z]+", "", "x", "^[A-Z]$", "a|b", r"\w+"])
  val = json.loads(d["l"])
  if isinstance(val, bool):
    return r.random() < 0.5
  if isinstance(val, int):
    return r.choice([0, 1, 2, 3, 5, 8, 20, 40, 79, 80, 100, 1000])
  if isinstance(val, list):
    if name == "disabled_codes":
      return r.sample(["C0103", "E0109", "C0301", "W0101", "é"], r.randint(0, 3))
    return [r.choice(STRINGS) for _ in range(r.randint(0, 4))]
  return r.choice(STRINGS)


def settings(r, count):
  """{section: {name: value}}"""
  out = {}
  for name in r.sample(sorted(BYNAME), min(count, len(BYNAME))):
    if name == "override_spec":
      continue
    if name == "disable" and r.random() < 0.9:
      continue
    out.setdefault(BYNAME[name]["s"], {})[name] = value(r, name)
  cmds = out.get("parse", {}).get("additional_commands")
  if cmds and r.random() < 0.5:
    name = r.choice(sorted(cmds))
    over = {"%s.%s" % (name, r.choice(["spelling", "max_subgroups_hwrap", "always_wrap"])): r.choice([1, 3, True])}
    if cmds[name].get("kwargs"):
      over["%s/%s.always_wrap" % (name, r.choice(sorted(cmds[name]["kwargs"])))] = True
    over["%s/parg[0].%s" % (name, r.choice(["nargs", "sortable", "max_pargs_hwrap"]))] = r.choice([1, 2])
    out["parse"]["override_spec"] = {k.replace(".spelling", ".always_wrap"): v for k, v in over.items()}
  return out


def plain(v):
  """as JSON has it"""
  return json.loads(json.dumps(v))


def node(v):
  if isinstance(v, dict):
    return {"m": [[k, node(x)] for k, x in sorted(v.items())]}
  return {"l": json.dumps(v, sort_keys=True)}


# -------------------------------------------------------------------- writing
def as_python(content, r):
  out = []
  if r.random() < 0.3:
    out.append("# comment\nimport os\n_unused = os.path.join('a', 'b')\n")
  for key, val in content.items():
    if key in SECTIONS and r.random() < 0.8:
      x = r.random()
      if x < 0.15:
        out.append("push_section(%r)\n" % key + "".join("%s = %r\n" % kv for kv in val.items()) + "pop_section()\n")
      elif val and all(k.isidentifier() for k in val):
        out.append(as_section(key, val, r, ""))
      else:
        out.append("%s = %r\n" % (key, val))
    else:
      out.append(assigned(key, val, r, ""))
  r.shuffle(out)
  return "".join(out)


def assigned(key, val, r, ind):
  """an assignment, perhaps by way of a name of the file's own or another option"""
  if r.random() < 0.2:
    own = "_own%d" % r.randint(0, 99)
    return "%s%s = %s\n%s%s = %s\n" % (ind, own, pyrepr(val, r), ind, key, own)
  return "%s%s = %s\n" % (ind, key, pyrepr(val, r))


def as_section(key, val, r, ind, top=True):
  """a with statement; the options that are dictionaries may be sections, too,
     and names that begin with an underscore are the file's own, seen in
     the sections inside of theirs"""
  name = key.replace("_", "-") if r.random() < 0.3 else key
  out = ind + "with section(%r):\n" % name
  ind += r.choice(["  ", "    ", "\t"])
  for k, v in val.items():
    if r.random() < 0.3:
      out += "\n" + ind + "# %s\n" % k
    if isinstance(v, dict) and v and all(x.isidentifier() and not keyword.iskeyword(x) for x in v) and "-" not in k and r.random() < 0.5:
      names = [x for x in v if not isinstance(v[x], dict)]
      if top and names and r.random() < 0.5:
        # a value from the section around it
        own = "_own%d" % r.randint(0, 99)
        x = r.choice(names)
        rest = {y: v[y] for y in v if y != x}
        out += "%s%s = %s\n" % (ind, own, pyrepr(v[x], r))
        out += "%swith section(%r):\n%s  %s = %s\n" % (ind, k, ind, x, own)
        if rest:
          out += as_section(k, rest, r, ind, False)
      else:
        out += as_section(k, v, r, ind, False)
    elif top:
      out += assigned(k, v, r, ind)
    else:
      out += ind + "%s = %s\n" % (k, pyrepr(v, r))
  return out


def pyrepr(v, r):
  import pprint
  x = r.random()
  if x < 0.3:
    return "(" + pprint.pformat(v, width=40) + ")"
  if x < 0.4 and isinstance(v, dict):
    return "dict(%r)" % (v,)
  return repr(v)


def as_yaml(content, r):
  import yaml
  kw = dict(default_flow_style=r.choice([False, None, True]), allow_unicode=r.random() < 0.5, sort_keys=r.random() < 0.5, indent=r.choice([2, 4]), width=r.choice([30, 80, 1000]))
  out = yaml.safe_dump(plain(content), **kw)
  if r.random() < 0.3:
    out = r.choice(["# comment\n", "---\n", "\n"]) + out
  return out


def as_json(content, r):
  return json.dumps(content, indent=r.choice([None, 1, 2, 4]), ensure_ascii=r.random() < 0.5)


def write(content, name, r):
  """text of the configuration file with this name"""
  items = list(content.items())
  r.shuffle(items)
  content = dict(items)
  if name.endswith(".py"):
    return as_python(content, r)
  if name.endswith(".json"):
    return as_json(content, r)
  if name.endswith(".yaml"):
    return as_yaml(content, r)
  return r.choice([as_python, as_json, as_yaml])(content, r)


def layout(sections, style, r):
  """content of a file: options in sections, flat, or some of each"""
  out = {}
  for s, vals in sections.items():
    for k, v in vals.items():
      if style == "flat" or (style == "mixed" and r.random() < 0.5):
        out[k] = v
      else:
        out.setdefault(s, {})[k] = v
  return out


CLI_SKIP = {"additional_commands", "override_spec", "layout_passes", "per_command", "vartags", "proptags"}


def cli_value(r, name):
  """(arguments, value)"""
  opt = "--" + name.replace("_", "-")
  val = value(r, name)
  default = json.loads(BYNAME[name]["d"]["l"])
  if isinstance(default, bool):
    if r.random() < 0.5:
      return [opt], not default
    return [opt, r.choice(["true", "yes", "1", "True", "Y"]) if val else r.choice(["false", "no", "0", "N"])], val
  if isinstance(default, int):
    return [opt, str(val)], val
  if isinstance(default, list):
    val = [v for v in val if not v.startswith("-")]
    return [opt] + val, val
  if val is None or val.startswith("-"):
    val = "x"
  return ["%s=%s" % (opt, val)], val


# -------------------------------------------------------------------- running
class Capture(object):
  """what the tools make of their configuration"""

  def __init__(self):
    self.seen = []

  def __call__(self, config, *_args, **_kwargs):
    self.seen.append(observe(config))
    return "", True


def observe(config):
  return dict(tree=node(plain(config.as_dict())), cmds=sorted(config.parse.fn_spec.kwargs), endl={"\r\n": "crlf", "\n": "lf"}.get(config.format.endl, "?"))


def reported(records):
  out = set()
  for rec in records:
    text = rec.getMessage()
    if text.startswith("The following configuration options were ignored"):
      out |= set(x.strip() for x in text.split("\n")[1:])
  return sorted(out)


def call_tool(tool, argv, cwd):
  """run main() of a tool in this process; returns (exit status, stdout, configurations used, log records)"""
  import logging
  import cmakelang.format.__main__ as fmain
  import cmakelang.lint.__main__ as lmain
  import cmakelang.annotate as amain
  mod, attr = {"format": (fmain, "process_file"), "lint": (lmain, "process_file"), "annotate": (amain, "annotate_file")}[tool]
  cap = Capture()
  records = []

  class Handler(logging.Handler):
    def emit(self, record):
      records.append(record)

  handler = Handler()
  root = logging.getLogger()
  level, disabled = root.level, logging.root.manager.disable
  old = getattr(mod, attr), sys.argv, os.getcwd(), sys.stdout
  out = io.StringIO()
  try:
    logging.disable(logging.NOTSET)
    root.addHandler(handler)
    root.setLevel(logging.INFO)
    setattr(mod, attr, cap)
    sys.argv = ["cmake-" + tool] + argv
    os.chdir(cwd)
    sys.stdout = Out(out)
    try:
      code = mod.main()
    except SystemExit as ex:
      code = ex.code if isinstance(ex.code, int) else (0 if ex.code is None else 2)
    except Exception as ex:  # pylint: disable=broad-except
      code = 1
      records.append(logging.makeLogRecord({"msg": "%s %s" % (type(ex).__name__, getattr(ex, "msg", ex)), "args": ()}))
  finally:
    setattr(mod, attr, old[0])
    sys.argv = old[1]
    os.chdir(old[2])
    sys.stdout = old[3]
    root.removeHandler(handler)
    root.setLevel(level)
    logging.disable(disabled)
  return code or 0, out.getvalue(), cap.seen, records


class Out(object):
  """stdout of the tool: text goes to the buffer, the descriptor is /dev/null"""

  def __init__(self, buf):
    self.buf = buf
    self.write = buf.write
    self.null = open(os.devnull, "w")

  def fileno(self):
    return self.null.fileno()

  def flush(self):
    pass


class Scratch(object):
  def __enter__(self):
    self.path = os.path.realpath(tempfile.mkdtemp(prefix="verif_cfg_"))
    return self

  def __exit__(self, *_args):
    shutil.rmtree(self.path, ignore_errors=True)

  def put(self, rel, text):
    path = os.path.join(self.path, *rel)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with io.open(path, "w", encoding="utf-8", newline="") as out:
      out.write(text)
    return path
