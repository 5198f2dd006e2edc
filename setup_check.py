"""setup: nothing to build; checks that the interpreter, z3 and the package under test load."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
sys.exit(subprocess.call([VENV, "-c", "import sys; sys.path[:0]=[%r,'/repo']; sys.dont_write_bytecode=True; import pydv, z3, subsetter.planner; print('ok', z3.get_version_string())" % HERE]))
