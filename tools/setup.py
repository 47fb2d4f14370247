"""setup_cmd: make sure the interpreter, the library and every check module can be loaded (nothing to compile)."""
import ast, glob, os, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
for f in glob.glob(V + "/checks/*.py") + glob.glob(V + "/rnv/*.py"):
    ast.parse(open(f).read())
os.makedirs(V + "/evidence", exist_ok=True)
os.makedirs(V + "/replays", exist_ok=True)
sys.dont_write_bytecode = True
import numpy, pandas, pymatgen.core, rustworkx, scipy  # noqa
print("ok")
