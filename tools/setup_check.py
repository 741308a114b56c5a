""" Checks that what the machinery needs is there. Builds nothing: the checks instrument /repo's source themselves. """
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
import numpy  # noqa: E402
import networkx  # noqa: E402

x = z3.Int("x")
s = z3.Solver()
s.add(x > 2, x < 4)
assert s.check() == z3.sat and s.model()[x].as_long() == 3
print("z3", z3.get_version_string(), "numpy", numpy.__version__, "networkx", networkx.__version__)
