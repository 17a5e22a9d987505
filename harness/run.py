"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
  if os.environ.get("PYTHONHASHSEED") != "0":
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)
  parser = argparse.ArgumentParser()
  parser.add_argument("prop")
  parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
  parser.add_argument("--replay")
  args = parser.parse_args()
  import core
  try:
    mod = importlib.import_module("props." + args.prop.lower())
  except ImportError as ex:
    if "props" in str(ex):
      raise
    # the code under test cannot even be imported
    path = os.path.join(core.VERIF, "evidence", "import_error.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as out:
      json.dump({"property": args.prop, "error": str(ex)}, out)
    print("VIOLATION property=%s replay=%s clause=import" % (args.prop, path))
    return 1
  check = core.Check(args.prop, args.tier, args.seed)
  try:
    if args.replay:
      with open(args.replay) as infile:
        return mod.replay(check, json.load(infile)["case"])
    return mod.run(check)
  except core.MachineryError as ex:
    print("MACHINERY ERROR: %s" % ex)
    return 2
  finally:
    check.cleanup()


if __name__ == "__main__":
  sys.exit(main())
