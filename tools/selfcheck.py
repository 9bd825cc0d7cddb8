#!/opt/venv/bin/python
"""setup_cmd: nothing has to be built; see that everything the checks need imports."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env

env.setup()
import hypothesis
import acltk

os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
print("hypothesis", hypothesis.__version__, "acltk from", os.path.dirname(acltk.__file__))
