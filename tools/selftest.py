"""setup / self test of the verifier: imports, back ends"""
import subprocess, sys
sys.path.insert(0, "/verif")
import z3
s = z3.Solver(); x = z3.Int("x"); s.add(x > x); assert s.check() == z3.unsat
assert subprocess.run(["cvc5", "--version"], capture_output=True).returncode == 0
from pyvc import contracts
cons, extra = contracts.load("/verif/contracts")
print(f"{len(cons)} contracts loaded; z3 {z3.get_version_string()}")
