"""Nothing to compile: checks that everything the checks need is importable."""
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "shim"), os.path.join(V, "lib"), "/repo"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import hypothesis  # noqa
import gurobipy  # noqa
import torch  # noqa
import highspy  # noqa
assert "standin" in gurobipy.__version__
print("setup ok: hypothesis", hypothesis.__version__, "torch",
      torch.__version__)
