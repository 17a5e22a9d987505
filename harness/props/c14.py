"""C14: the ways of invoking cmake-format."""
import json
import random
import re

import core
import fmt
import gen
import tool
from cmakelang.format import __main__ as fm
from cmakelang import configuration

SPEC = "Cli.tla"
LEVEL = "model_checking"
MODULE = "cmakelang.format.__main__"

OPTIONS = [
    ("format", "line_width", "--line-width", [20, 40, 60, 120]),
    ("format", "tab_size", "--tab-size", [2, 4, 3]),
    ("format", "use_tabchars", "--use-tabchars", [True, False]),
    ("format", "line_ending", "--line-ending", ["auto", "unix", "windows"]),
    ("format", "command_case", "--command-case", ["upper", "lower", "canonical", "unchanged"]),
    ("format", "keyword_case", "--keyword-case", ["upper", "lower", "unchanged"]),
    ("format", "dangle_parens", "--dangle-parens", [True, False]),
    ("format", "separate_ctrl_name_with_space", "--separate-ctrl-name-with-space", [True]),
    ("format", "separate_fn_name_with_space", "--separate-fn-name-with-space", [True]),
    ("format", "require_valid_layout", "--require-valid-layout", [True]),
    ("format", "enable_sort", "--enable-sort", [True, False]),
    ("format", "autosort", "--autosort", [True]),
    ("format", "max_subgroups_hwrap", "--max-subgroups-hwrap", [1, 3]),
    ("format", "max_pargs_hwrap", "--max-pargs-hwrap", [2, 9]),
    ("markup", "enable_markup", "--enable-markup", [True, False]),
    ("markup", "bullet_char", "--bullet-char", ["-", "+"]),
    ("encode", "emit_byteorder_mark", "--emit-byteorder-mark", [True]),
]
RARE = {"require_valid_layout", "emit_byteorder_mark"}


def pick(r, n):
  out = {}
  for section, name, flag, values in r.sample(OPTIONS, n):
    if name in RARE and r.random() < 0.5:
      continue
    out[(section, name)] = (flag, r.choice(values))
  return out


def encoding(r, mode, opts):
  """encodings of input and output (the same one unless the output goes elsewhere)"""
  names = ["latin-1", "utf-8", "utf-16-le", "cp1252"]
  one = r.choice(names)
  other = r.choice(names) if mode in ("stdout", "outfile", "stdin", "dash") else one
  opts[("encode", "input_encoding")] = ("--input-encoding", one)
  opts[("encode", "output_encoding")] = ("--output-encoding", other)


def flags(opts):
  argv = []
  for (_s, _n), (flag, value) in sorted(opts.items()):
    # a switch without a value stands for the opposite of the default
    if value is True and flag not in ("--enable-markup", "--enable-sort"):
      argv += [flag]
    else:
      argv += [flag, str(value).lower() if isinstance(value, bool) else str(value)]
  return argv


def cfgdict(*many):
  """later ones win"""
  out = {}
  for opts in many:
    for (section, name), (_f, value) in opts.items():
      out.setdefault(section, {})[name] = value
  return out


def text_of(r, depth=3):
  kind = r.choice(["gen", "gen", "gen", "plain", "plain", "formatted", "mal", "crlf", "wide", "empty", "bytes", "lexerr", "bom"])
  plain = "".join(r.choice(["FOO( a   b )\n", "set(X  y)\n", "if(A)\nfoo()\nendif()\n", "message(x)\n", "# c\n", "add_library(t b.cc a.cc)\n"]) for _ in range(r.randint(1, 4)))
  if kind == "gen":
    text = gen.Gen(r, max_items=3).file()
    try:
      return text.encode(r.choice(["utf-8", "utf-8", "utf-8", "latin-1", "utf-16-le"]))
    except UnicodeError:
      return text.encode("utf-8")
  if kind == "formatted":
    return r.choice([b"foo(a b)\n", b"# only a comment\n", b"set(X y)\n\nif(A)\n  foo()\nendif()\n"])
  if kind == "mal":
    return (plain + r.choice(["if(a)\nfoo()\n", "foo(a\n", "endif(\n", "foo)\n"])).encode()
  if kind == "crlf":
    return plain.replace("\n", "\r\n").encode()
  if kind == "wide":
    return (plain + "foo(%s)\n" % " ".join("w" * r.choice([30, 90]) for _ in range(4))).encode()
  if kind == "empty":
    return r.choice([b"", b"\n"])
  if kind == "bytes":
    return plain.encode() + b"# \xff\n"
  if kind == "lexerr":
    return plain.encode() + b'foo("unclosed)\n'
  if kind == "bom":
    return b"\xef\xbb\xbf" + plain.encode()
  return plain.encode()


def ref_one(args, write=True):
  """what formatting this one text with this one configuration yields"""
  data, cfgd = args
  cfg = fmt.make_config(cfgd)
  if cfg.format.disable:
    return dict(kind="ok", new=data.hex(), dis=1)
  try:
    text = data.decode(cfg.encode.input_encoding)
  except UnicodeError:
    return dict(kind="error", new="", dis=0)
  out, err = core.guarded(fm.process_file, cfg, text, None)
  if err is not None:
    return dict(kind="error", new="", dis=0)
  if cfg.format.require_valid_layout and not out[1]:
    return dict(kind="invalid", new="", dis=0)
  if not write:
    # only compared with the text that was read
    return dict(kind="ok", new=out[0].encode(cfg.encode.output_encoding, "replace").hex(), dis=0)
  try:
    return dict(kind="ok", new=out[0].encode(cfg.encode.output_encoding).hex(), dis=0)
  except UnicodeError:
    return dict(kind="error", new="", dis=0)


def scenario(seed):
  r = random.Random(seed)
  n = r.choice([1, 1, 2, 2, 3, 4])
  names = r.sample(["a.cmake", "b.cmake", "CMakeLists.txt", "d/c.cmake", "d/x.cmake", "d/e/f.cmake", "g/h i.cmake"], n)
  start = {name: text_of(r) for name in names}
  if n > 1 and r.random() < 0.3:
    # the same text twice, so that leaks from one file to the next show
    start[names[1]] = start[names[0]]
  how = r.choice(["cli", "cli", "file", "both", "discover", "none"])
  mode = r.choice(["stdout", "stdout", "inplace", "inplace", "check", "check", "outfile", "stdin", "stdin-check", "dash"])
  cli = pick(r, r.randint(1, 3)) if how in ("cli", "both") else {}
  conf = pick(r, r.randint(1, 4)) if how in ("file", "both") else {}
  if r.random() < 0.04 and how == "file":
    conf[("format", "disable")] = ("", True)
  if r.random() < 0.2 and how in ("cli", "file", "both") and ("format", "disable") not in conf:
    encoding(r, mode, cli if how == "cli" else conf)
  found = {}
  if how == "discover":
    for d in r.sample(["", "d", "g", "d/e"], r.randint(1, 3)):
      found[d] = pick(r, r.randint(1, 3))
      if r.random() < 0.08:
        found[d][("format", "disable")] = ("", True)
  argv = []
  other = {}
  if how in ("file", "both"):
    other["conf.json"] = json.dumps(cfgdict(conf)).encode()
    argv += ["-c", "conf.json"]
  for d, opts in found.items():
    other[(d + "/" if d else "") + r.choice([".cmake-format.json", "cmake-format.json"])] = json.dumps(cfgdict(opts)).encode()
  other["bystander.cmake"] = b"FOO(  )\n"
  if r.random() < 0.3:
    # files with names that a run might take for its own
    for name in names:
      base = name.rpartition("/")[2]
      for decoy in r.sample([name + "~", name + ".bak", name + ".orig", name + ".tmp", name + ".new", base + ".cmf-temp", base + ".tmp", base, "d/" + base,
                             "d/" + base + ".cmf-temp", ".cmf-temp", "cmf-temp", name.rpartition(".")[0], base.partition(".")[0] + ".cmf-temp"], 4):
        if decoy not in start and decoy != name + ".cmf-temp" and decoy not in ("", "d"):
          other[decoy] = b"Decoy(  )\n"
  if mode in ("outfile", "stdin", "stdin-check", "dash"):
    names = names[:1]
  inputs = list(names)
  if len(inputs) > 1 and r.random() < 0.15:
    inputs.append(r.choice(inputs))
  if mode not in ("stdin", "stdin-check") and r.random() < 0.12:
    inputs.insert(r.randint(0, len(inputs)), "missing.cmake")
    if mode in ("outfile", "dash"):
      inputs = inputs[:1]
  return dict(start={k: v.hex() for k, v in start.items()}, other={k: v.hex() for k, v in other.items()}, inputs=inputs, mode=mode,
              argv=argv + flags(cli), cli=[[k, v] for k, v in sorted(cli.items())], conf=[[k, v] for k, v in sorted(conf.items())],
              found=[[d, [[k, v] for k, v in sorted(o.items())]] for d, o in sorted(found.items())], old_target=r.random() < 0.5)


def undict(items):
  return {tuple(k): tuple(v) for k, v in items}


def config_for(sc, name):
  opts = []
  found = {d: undict(o) for d, o in sc["found"]}
  if found:
    d = name.rpartition("/")[0]
    if sc["mode"] in ("stdin", "stdin-check"):
      d = ""
    while True:
      if d in found:
        opts.append(found[d])
        break
      if not d:
        break
      d = d.rpartition("/")[0]
  opts.append(undict(sc["conf"]))
  opts.append(undict(sc["cli"]))
  return cfgdict(*opts)


def job(sc):
  files = {k: {"hex": v} for k, v in list(sc["start"].items()) + list(sc["other"].items())}
  mode = sc["mode"]
  argv = list(sc["argv"])
  out = dict(module=MODULE, files=files)
  if mode == "outfile":
    argv = ["-o", "out.cmake"] + argv
    if sc["old_target"]:
      files["out.cmake"] = {"hex": b"previous contents\n".hex() * 50}
  elif mode == "dash":
    argv = ["-o", "-"] + argv
  elif mode == "inplace":
    argv = ["-i"] + argv
  elif mode in ("check", "stdin-check"):
    argv = ["--check"] + argv
  if mode in ("stdin", "stdin-check"):
    out["stdin"] = sc["start"][sc["inputs"][0]]
    out["argv"] = argv + ["--", "-"] if False else ["-"] + argv
  elif sc.get("first"):
    out["argv"] = sc["inputs"] + argv
  else:
    # options with several values would swallow the file names
    out["argv"] = sc["inputs"] + argv
  if sc.get("exec"):
    out["exec"] = "cmakelang.format"
  return out


def add_refs(sc):
  sc = dict(sc)
  sc["ref"] = {}
  for name in sorted(set(sc["inputs"])):
    if name not in sc["start"]:
      dis = ref_one((b"", config_for(sc, name)))["dis"]
      sc["ref"][name] = dict(kind="error", new="", dis=dis)
      continue
    sc["ref"][name] = ref_one((bytes.fromhex(sc["start"][name]), config_for(sc, name)), "check" not in sc["mode"])
  return sc


def ints(hexa):
  return list(bytes.fromhex(hexa))


def to_case(sc, jb, out):
  mode = sc["mode"]
  again = set()
  files = []
  for name in sc["inputs"]:
    ref = sc["ref"][name]
    old, new = sc["start"].get(name, ""), ref["new"]
    kind = ref["kind"]
    if name in again and mode == "inplace" and kind == "ok":
      ref = ref_one((bytes.fromhex(new), config_for(sc, name)))
      old, new, kind = new, ref["new"], ref["kind"]
    again.add(name)
    files.append(dict(n="-" if mode.startswith("stdin") else name, old=ints(old), new=ints(new), kind=kind, dis=ref["dis"]))
  return dict(
      mode={"stdin": "stdout", "dash": "stdout", "stdin-check": "check"}.get(mode, mode), target="out.cmake", files=files,
      start=[dict(n=k, d=ints(v["hex"])) for k, v in sorted(jb["files"].items())],
      fin=[dict(n=k, d=ints(v["hex"])) for k, v in sorted(out["final"].items())],
      out=ints(out["out"]), rc=out["rc"],
      named=re.findall(r"Check failed: (.+)", out["err"]), failed=re.findall(r"Failed to format (.+)", out["err"]))


def run(check):
  scs = core.pmap(scenario, check.seeds(check.n(2400, 12000)))
  r = check.rng("exec")
  for sc in r.sample(scs, check.n(16, 150)):
    sc["exec"] = True
  scs = core.pmap(add_refs, scs)
  jobs = [job(sc) for sc in scs]
  outs = tool.run_jobs(jobs)
  check.validate(SPEC, [to_case(*x) for x in zip(scs, jobs, outs)],
                 [dict(scenario=sc, argv=jb["argv"], rc=out["rc"], out=bytes.fromhex(out["out"]).decode("utf-8", "replace"), err=out["err"][-600:]) for sc, jb, out in zip(scs, jobs, outs)])
  for sc, jb in list(zip(scs, jobs))[:3]:
    check.sample(dict(argv=jb["argv"], files=sorted(jb["files"])))
  return check.finish(LEVEL, "runs of the command line over 1-5 inputs in each mode; non-trivial: at least two inputs or a failing one",
                      evaluations=len(scs), distinct=sum(1 for s in scs if len(s["inputs"]) > 1 or any(x["kind"] != "ok" for x in s["ref"].values())))


def replay(check, rec):
  sc = add_refs(rec["scenario"])
  jb = job(sc)
  out = tool.run_jobs([jb])[0]
  print(jb["argv"], out["rc"], out["err"], bytes.fromhex(out["out"]).decode("utf-8", "replace"), sep="\n")
  check.validate(SPEC, [to_case(sc, jb, out)], [rec])
  return check.finish(LEVEL, "replay of one case")
