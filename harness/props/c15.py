"""C15: discovery, includes, merging and precedence of configurations."""
import json
import os
import random

import core
import cfglib

SPEC = "Config.tla"
LEVEL = "model_checking"
DIRS = [[], ["a"], ["a", "b"], ["a", "b", "c"], ["d"], ["a", "e"]]
AUTO = [".cmake-format", ".cmake-format.py", ".cmake-format.json", ".cmake-format.yaml", "cmake-format.py", "cmake-format.json", "cmake-format.yaml"]
UNKNOWN = ["line_widht", "foo", "format_", "x1", "_hidden", "tab-size2"]


def content(r, style, size):
  sets = cfglib.settings(r, size)
  out = cfglib.layout(sets, style, r)
  if r.random() < 0.15:
    out[r.choice(["line_widht", "foo", "_hidden", "Format", "tabsize"])] = r.choice([1, "x", [1, 2]])
  if r.random() < 0.15:
    sect = r.choice(cfglib.SECTIONS)
    out.setdefault(sect, {})[r.choice(["line_widht", "bar", "_x", "width"])] = r.choice([1, "x", None])
  if r.random() < 0.1:
    out.setdefault(r.choice(cfglib.SECTIONS), {})
  return out


def scenario(seed):
  r = random.Random(seed)
  files = {}
  names = []
  pool = r.choice([4, 8, len(cfglib.BYNAME)])     # few options make for many conflicts
  subset = r.sample(sorted(cfglib.BYNAME), pool)

  def add(path, depth):
    cont = content(r, r.choice(["flat", "section", "section", "mixed"]), r.choice([0, 3, 10, 40]))
    if pool < 10:
      for k in r.sample(subset, r.randint(1, len(subset))):
        if k in ("override_spec", "disable"):
          continue
        if r.random() < 0.5:
          cont[k] = cfglib.value(r, k)
        else:
          cont.setdefault(cfglib.BYNAME[k]["s"], {})[k] = cfglib.value(r, k)
    # overrides must name commands that exist in what results; keep them apart
    cont.pop("override_spec", None)
    cont.get("parse", {}).pop("override_spec", None)
    for d in (cont, cont.get("format", {})):
      if d.get("disable"):
        d["disable"] = False
    inc = []
    files[tuple(path)] = dict(cont=cont, inc=inc)
    while depth < 3 and len(files) < 8 and r.random() < 0.35:
      k = len(files)
      sub = r.choice([[], [], ["inc"], [".."], [".", "x y"]])
      name = "i%d%s" % (k, r.choice([".py", ".json", ".yaml"]))
      target = resolve(path[:-1], sub + [name])
      if target is None or tuple(target) in files:
        break
      absolute = r.random() < 0.15
      inc.append((int(absolute), target if absolute else sub + [name]))
      add(target, depth + 1)
    if r.random() < 0.05:
      inc.append((0, ["nowhere.py"]))

  mode = r.choice(["auto", "auto", "given"])
  if mode == "auto":
    for d in r.sample(DIRS, r.randint(1, 4)):
      for name in r.sample(AUTO, r.choice([1, 1, 2])):
        if tuple(d + [name]) not in files:
          add(d + [name], 0)
  else:
    for _ in range(r.choice([1, 1, 2, 3])):
      d = r.choice(DIRS)
      name = "c%d%s" % (len(files), r.choice([".py", ".json", ".yaml", "", ".conf"]))
      names.append(d + [name])
      add(d + [name], 0)
    if r.random() < 0.1:
      names.append(["nothing.py"])
    if r.random() < 0.2:
      add(["a", ".cmake-format.py"], 0)
  cwd = r.choice(DIRS)
  inputs = [r.choice(DIRS) for _ in range(r.choice([1, 1, 2, 3]))]
  cli = {}
  if r.random() < 0.5:
    for k in r.sample(sorted(set(cfglib.BYNAME) - cfglib.CLI_SKIP - {"disable"}), r.randint(1, 4)):
      cli[k] = cfglib.cli_value(r, k)
    if pool < 10 and r.random() < 0.7:
      for k in subset[:2]:
        if k not in cfglib.CLI_SKIP and k != "disable":
          cli[k] = cfglib.cli_value(r, k)
  tool = r.choice(["format", "format", "dump", "dump", "lint", "annotate", "lintdump"])
  return dict(seed=seed, files=[[list(k), v] for k, v in files.items()], given=int(mode == "given"), names=names, cwd=cwd, inputs=inputs,
              cli=cli if tool != "annotate" else {}, tool=tool, link=r.random() < 0.15, stdin=r.random() < 0.1)


def resolve(base, rest):
  out = list(base)
  for x in rest:
    if x == "..":
      if not out:
        return None
      out.pop()
    elif x != ".":
      out.append(x)
  return out


def record(sc):
  r = random.Random(sc["seed"] + 1)
  with cfglib.Scratch() as tmp:
    for d in DIRS:
      os.makedirs(os.path.join(tmp.path, *d), exist_ok=True)
    for d, fl in sc["files"]:
      cont = dict(fl["cont"])
      if fl["inc"]:
        cont["include"] = [os.path.join(tmp.path, *p) if a else "/".join(p) for a, p in fl["inc"]]
      tmp.put(d, cfglib.write(cont, d[-1], r))
    cwd = os.path.join(tmp.path, *sc["cwd"])
    argv = []
    for args, _v in sc["cli"].values():
      argv += args
    if sc["given"]:
      argv += ["-c"] + [os.path.relpath(os.path.join(tmp.path, *p), cwd) if r.random() < 0.7 else os.path.join(tmp.path, *p) for p in sc["names"]]
    base = dict(files=[dict(p=d, inc=[dict(abs=a, p=p) for a, p in fl["inc"]], ent=cfglib.node(cfglib.plain(fl["cont"]))) for d, fl in sc["files"]],
                given=sc["given"], cf=sc["names"], cli=[dict(n=k, v=cfglib.node(cfglib.plain(v[1]))) for k, v in sc["cli"].items()],
                ref=0, fail=0, tree={"m": []}, warn=[], cmds=[], endl="lf", said=1)
    runs = []
    if sc["tool"] in ("dump", "lintdump"):
      fmt = r.choice(["json"] * 4 + ["yaml", "python"])
      code, out, _seen, recs = cfglib.call_tool("format" if sc["tool"] == "dump" else "lint", ["--dump-config", fmt, "--no-help"] + argv, cwd)
      run = dict(base, start=sc["cwd"], fail=int(code != 0), why=recs[-1].getMessage() if recs else "", warn=cfglib.reported(recs))
      if code == 0:
        from cmakelang import configuration
        conf = {"json": json.loads, "yaml": load_yaml, "python": load_python}[fmt](out)
        run["tree"] = cfglib.node(cfglib.plain(conf))
        # the derived values are not part of a dump
        cfg = configuration.Configuration(**conf)
        run["cmds"], run["endl"] = sorted(cfg.parse.fn_spec.kwargs), {"\r\n": "crlf", "\n": "lf"}[cfg.format.endl]
      runs.append(run)
    else:
      paths = []
      starts = []
      for k, d in enumerate(sc["inputs"]):
        if sc["stdin"]:
          paths, starts = ["-"], [sc["cwd"]]
          break
        path = tmp.put(d + ["in%d.cmake" % k], "")
        if sc["link"] and k == 0:
          other = os.path.join(tmp.path, "d", "link.cmake")
          os.symlink(path, other)
          path = other
        paths.append(os.path.relpath(path, cwd) if r.random() < 0.7 else path)
        starts.append(d)
      if sc["given"]:
        argv.append("--")
      else:
        argv = ["-l", "info"] + argv if sc["tool"] != "annotate" else argv
        argv += ["--"]
      code, _out, seen, recs = cfglib.call_tool(sc["tool"], argv + paths, cwd)
      if len(seen) != len(paths) and code == 0:
        return None, dict(sc, why="%d of %d files processed" % (len(seen), len(paths)))
      else:
        warn = cfglib.reported(recs)
        for st, ob in zip(starts, seen):
          runs.append(dict(base, start=st, fail=0, warn=warn if len(seen) == 1 else [], **ob))
        if len(seen) < len(paths):
          runs.append(dict(base, start=starts[len(seen)], fail=1, why=recs[-1].getMessage() if recs else ""))
        if len(paths) > 1:
          # the reports of several files are not told apart
          for run in runs:
            run["said"] = 0
    return dict(runs=runs, outs=[]), sc


def load_yaml(text):
  import yaml
  return yaml.load(text, Loader=yaml.Loader)


def load_python(text):
  from cmakelang.config_util import ExecGlobal
  glob = ExecGlobal("x.py")
  exec(text, glob)  # pylint: disable=exec-used
  glob.pop("__builtins__", None)
  return dict(glob)


def guarded_record(sc):
  val, err = core.guarded(record, sc)
  return val, err, sc


def execute(check, scs):
  cases, reps = [], []
  for val, err, sc in core.pmap(guarded_record, scs):
    if err is not None:
      check.fail("crashed", dict(sc, why=err), extra=err)
    elif val[0] is None:
      check.fail("files-skipped", val[1], extra=val[1]["why"])
    else:
      cases.append(val[0])
      reps.append(sc)
  check.validate(SPEC, cases, reps)
  return cases


def run(check):
  scs = core.pmap(scenario, check.seeds(check.n(3200, 20000)))
  cases = execute(check, scs)
  for sc in scs[:2]:
    check.sample(sc)
  return check.finish(LEVEL, "trees of configuration files (py/json/yaml/none, flat/sectioned/mixed), includes, -c, command line options; cmake-format, -lint, -annotate and --dump-config; non-trivial: at least two files or a file and command line options",
                      evaluations=len(cases), distinct=sum(1 for sc in scs if len(sc["files"]) + len(sc["cli"]) > 1))


def replay(check, rec):
  rec.pop("why", None)
  print(json.dumps(rec, indent=1))
  cases = execute(check, [rec])
  for k in cases:
    for run_ in k["runs"]:
      print(run_["fail"], run_.get("why"), run_["warn"], run_["cmds"], run_["start"], json.dumps(run_["tree"])[:6000])
  return check.finish(LEVEL, "replay of one case")
