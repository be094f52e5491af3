"""setup_cmd: nothing has to be built; makes sure that the tools the checks need are there"""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import env  # noqa: E402

scratch = env.setup()
try:
    import hypothesis
    import fasteners
    import dataladmetadatamodel
    print("hypothesis", hypothesis.__version__, "code under test", os.path.dirname(dataladmetadatamodel.__file__),
          subprocess.run(["git", "--version"], stdout=subprocess.PIPE).stdout.decode().strip())
finally:
    env.cleanup(scratch)
