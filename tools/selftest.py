"""Set-up: nothing to build; checks that the back end and the interpreter of the checks are there."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3, jsonschema
from pyvc import contract
s = z3.Solver(); x = z3.Int('x'); s.add(x > x); assert s.check() == z3.unsat
print('pyvc, z3', z3.get_version_string())
