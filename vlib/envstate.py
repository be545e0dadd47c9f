"""The state of the process that no call may change."""
import decimal
import gc
import os
import random
import sys
import warnings

import numba
import numpy as np


def env_state():
    g = np.random.get_state()
    return {
        "NumPy error state": (tuple(sorted(np.geterr().items())),
                              np.geterrcall()),
        "warning filters": tuple(warnings.filters),
        "handler of warnings": warnings.showwarning,
        "print options": repr(sorted(np.get_printoptions().items(),
                                     key=lambda kv: kv[0])),
        "global generator of NumPy": (g[1].tobytes(),) + tuple(g[2:]),
        "global generator of random": random.getstate(),
        "decimal context": repr(decimal.getcontext()),
        "numba threads": numba.get_num_threads(),
        "environment variables": tuple(sorted(os.environ.items())),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "garbage collector": gc.isenabled(),
        "working directory": os.getcwd(),
    }


def same_env(ctx, before, name, **d):
    now = env_state()
    for k, v in before.items():
        ctx.check(now[k] == v, "%s changed the %s" % (name, k),
                  "environment", **d)
