#!/usr/bin/env python3
"""Nothing has to be built beforehand; this only confirms that the tools the
checks use are there."""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import env  # noqa: E402

code = ("import sys; sys.path.insert(0, %r); from vlib import env; env.add_hypothesis(); "
        "import hypothesis, numpy, scipy, healpy, matplotlib; print('hypothesis', hypothesis.__version__)"
        % env.VERIF)
sys.exit(subprocess.call([env.PY, "-B", "-c", code]))
