"""setup_cmd: nothing to compile; verify that the tools are there and that
every specification parses."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(os.path.dirname(HERE), "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def main():
  tmp = tempfile.mkdtemp(prefix="verif_setup_")
  bad = 0
  try:
    names = sorted(x for x in os.listdir(SPECS) if x.endswith(".tla"))
    proc = subprocess.run(["java", "-Djava.io.tmpdir=" + tmp, "-cp", JARS, "tla2sany.SANY"] + names,
                          cwd=SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True)
    if proc.returncode != 0 or "*** Errors" in proc.stdout or "Fatal" in proc.stdout:
      print(proc.stdout[-4000:])
      bad = 1
    print("%d specifications parsed" % len(names))
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
  return bad


if __name__ == "__main__":
  sys.exit(main())
