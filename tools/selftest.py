"""setup_cmd: nothing has to be built; confirm that the interpreter, the vendored library and the code import."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PYTHONPATH=os.pathsep.join(["/repo", here, os.path.join(here, "vendor")]),
           MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1", OMPI_MCA_btl="self", OMPI_MCA_pml="ob1",
           OMPI_MCA_plm="isolated", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
sys.exit(subprocess.call(["/opt/venv/bin/python", "-c", "import hypothesis, numpy, scipy, matplotlib"], env=env))
