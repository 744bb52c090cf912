#!/usr/bin/env python3
"""Entry point: python3 /verif/run.py C01 [--tier quick|thorough] [--replay FILE] [--sub NAME]

Re-executes itself in the project's interpreter with a fixed environment, then hands over to vp.driver.
"""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
REPO = os.environ.get("VP_REPO", "/repo")
ENV = dict(
    MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
    PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
    OMPI_MCA_btl="self", OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated",
    OMPI_MCA_rmaps_base_oversubscribe="1",
    OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
    PYTHONPATH=os.pathsep.join([REPO, HERE, os.path.join(HERE, "vendor")]),
    VP_BOOTED="1",
)
if os.environ.get("VP_BOOTED") != "1":
    env = dict(os.environ)
    env.update(ENV)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

from vp import driver  # noqa: E402

sys.exit(driver.main(sys.argv[1:]))
