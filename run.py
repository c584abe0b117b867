#!/opt/venv/bin/python
"""run.py ID [--tier quick|thorough] [--seed N] | run.py ID --replay FILE

Decides one property of netomaton by generated-input search (see DESIGN.md).
Exit 0: held on everything explored.  Exit 1 with a line
'VIOLATION property=ID replay=PATH': broken.  Exit 2: the check itself failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {
    "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
    "NPY_DISABLE_CPU_FEATURES": "AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL",
}
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")

if __name__ == "__main__":
    if os.environ.get("PBT_CHILD") != "1":
        env = dict(os.environ, **ENV)
        env["PBT_CHILD"] = "1"
        env.pop("PYTHONPATH", None)
        os.execve(PY, [PY, "-B", "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from pbt import engine
    sys.exit(engine.main(sys.argv[1:], HERE))
