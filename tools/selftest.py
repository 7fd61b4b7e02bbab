"""setup_cmd: nothing to build; makes sure the interpreter, the solver and the engine load."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import core
import z3
from engine import harness
s = z3.Solver(); x = z3.Int("x"); s.add(x > 3, x < 5)
assert s.check() == z3.sat and s.model()[x].as_long() == 4
print("ok", z3.get_version_string())
