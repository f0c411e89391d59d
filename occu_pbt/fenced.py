"""python -m occu_pbt.fenced ROOT SCRIPT ARGUMENTS: run a script that may only write below ROOT."""
import os
import runpy
import sys
import tempfile

from . import clirun

root, script = sys.argv[1:3]
sys.argv = sys.argv[2:]
sys.path = [p for p in sys.path if p != os.getcwd()]
sys.path.insert(0, os.path.dirname(os.path.abspath(script)))
tempfile.tempdir = root
with clirun.fence(root, figures=False):
    runpy.run_path(script, run_name='__main__')
