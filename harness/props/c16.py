"""C16: configuration formats are equivalent, dumps round-trip."""
import json
import os
import random

import core
import cfglib
import gen

SPEC = "Config.tla"
LEVEL = "model_checking"
FORMS = [("yaml", ".yaml"), ("json", ".json"), ("py", ".py"), ("bare", "")]


def scenario(seed):
  r = random.Random(seed)
  sets = cfglib.settings(r, r.choice([1, 2, 5, 15, 60]))
  sets.get("format", {}).pop("disable", None)   # nothing would be run
  variants = []
  for _ in range(r.choice([2, 3, 4])):
    variants.append((r.choice(FORMS)[1], r.choice(["section", "flat", "mixed"])))
  chain = [(r.choice(["yaml", "json", "python"]), r.random() < 0.5, r.random() < 0.5, r.choice(["format", "lint"])) for _ in range(r.choice([1, 2, 3, 4]))]
  cli = {}
  if r.random() < 0.3:
    for k in r.sample(sorted(set(cfglib.BYNAME) - cfglib.CLI_SKIP - {"disable"}), r.randint(1, 4)):
      cli[k] = cfglib.cli_value(r, k)
  return dict(seed=seed, sets=sets, variants=variants, chain=chain, cli=cli)


TEXT = """# first comment
#
# * bullet  with words words words words words words words words words words words words words
#########
set(x a b c)
foo(BAR baz HEADERS a.h b.h c.h d.h e.h f.h g.h SOURCES a.cc b.cc c.cc d.cc e.cc f.cc g.cc DEPENDS x y z)
my_cmd(SOURCES a.cc b.cc c.cc d.cc e.cc f.cc g.cc NO QUX -w aaaaaaaaaaaaaaaaaa bbbbbbbbbbbbbbbbbbbbbb cccccccccccccccccccc)
if(a and b) #< trailing
ADD_LIBRARY(lib STATIC z.cc y.cc x.cc) # ~~~~
add_custom_command(OUTPUT x COMMAND cmake -E touch xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy DEPENDS y)
endif()


externalproject_add(x PREFIX y)
"""


def load_run(tmp, sc, path, cli, cwd, ent=None, rel=None, ref=0):
  """dump the configuration as the tool loads it from the file"""
  argv = []
  for args, _v in cli.values():
    argv += args
  code, out, seen, recs = cfglib.call_tool("format", argv + ["-c", path, "--", os.path.join(tmp.path, "in.cmake")], cwd)
  run = dict(files=[] if ent is None else [dict(p=rel, inc=[], ent=ent)], given=1, cf=[rel] if rel else [], start=[], ref=ref, said=1,
             cli=[dict(n=k, v=cfglib.node(cfglib.plain(v[1]))) for k, v in cli.items()], fail=int(not seen), tree={"m": []}, cmds=[], endl="lf",
             warn=cfglib.reported(recs), why=recs[-1].getMessage() if recs and not seen else "")
  if seen:
    run.update(seen[0])
  return run


def formatted(path, cli, tmp):
  """what formatting prints under the configuration"""
  import cmakelang.format.__main__ as fmain
  from cmakelang import configuration
  cfg = configuration.Configuration(**fmain.get_configdict([path]))
  cfg.legacy_consume({k: v[1] for k, v in cli.items()})
  val, err = core.guarded(fmain.process_file, cfg, TEXT)
  return val[0] if err is None else err


def record(sc):
  r = random.Random(sc["seed"] + 1)
  runs, outs = [], []
  with cfglib.Scratch() as tmp:
    tmp.put(["in.cmake"], "")
    first = None
    for k, (ext, style) in enumerate(sc["variants"]):
      cont = cfglib.layout(sc["sets"], style, r)
      rel = ["v%d%s" % (k, ext)]
      path = tmp.put(rel, cfglib.write(cont, rel[0], r))
      cli = sc["cli"] if k == 0 else {}
      runs.append(load_run(tmp, sc, path, cli, tmp.path, ent=cfglib.node(cfglib.plain(cont)), rel=rel))
      runs[-1]["why"] += " " + rel[0]
      if k == 0:
        first = path
      if k == 0 or not sc["cli"]:
        outs.append(formatted(path, cli, tmp))
    path, cli = first, sc["cli"]
    for k, (fmt, helptext, defaults, tool) in enumerate(sc["chain"]):
      argv = ["--dump-config", fmt] + ([] if helptext else ["--no-help"]) + ([] if defaults else ["--no-default"])
      for args, _v in cli.values():
        argv += args
      code, out, _seen, recs = cfglib.call_tool(tool, argv + ["-c", path], tmp.path)
      cli = {}
      ext = {"yaml": ".yaml", "json": ".json", "python": ".py"}[fmt]
      if fmt == "yaml" and not out.strip():
        out = ""
      path = tmp.put(["d%d%s" % (k, r.choice([ext, ext, ""]))], out)
      runs.append(load_run(tmp, sc, path, {}, tmp.path, ref=1))
      runs[-1]["why"] += " dump %s: %s" % (fmt, out[-500:] if runs[-1]["fail"] else "")
      outs.append(formatted(path, {}, tmp) if not runs[-1]["fail"] else "")
  return dict(runs=runs, outs=outs)


def guarded_record(sc):
  val, err = core.guarded(record, sc)
  return val, err, sc


def execute(check, scs):
  cases, reps = [], []
  for val, err, sc in core.pmap(guarded_record, scs):
    if err is not None:
      check.fail("crashed", dict(sc, why=err), extra=err)
    else:
      cases.append(val)
      reps.append(sc)
  check.validate(SPEC, cases, reps)
  return cases


def run(check):
  scs = core.pmap(scenario, check.seeds(check.n(1000, 8000)))
  cases = execute(check, scs)
  for sc in scs[:2]:
    check.sample(sc)
  return check.finish(LEVEL, "settings of 1-60 options written in 2-4 ways and dumped and reloaded up to 4 times; non-trivial: any setting", evaluations=len(cases),
                      distinct=sum(1 for sc in scs if sc["sets"]))


def replay(check, rec):
  rec.pop("why", None)
  print(json.dumps(rec, indent=1))
  cases = execute(check, [rec])
  for k in cases:
    for n, run_ in enumerate(k["runs"]):
      print(n + 1, run_["fail"], run_["why"], run_["warn"], run_["cmds"], json.dumps(run_["tree"])[:300])
    for out in k["outs"]:
      print("---")
      print(out)
  return check.finish(LEVEL, "replay of one case")
