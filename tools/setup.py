"""Nothing to build: checks run from source. Verifies that the interpreter and the code under test are usable."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import api, rawgen, glmgen, linecalc  # noqa: F401
print("setup ok:", sys.version.split()[0])
