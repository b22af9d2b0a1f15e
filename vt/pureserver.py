"""Interpreted execution on request: reads pickled calls from stdin, answers with their outcome on stdout."""
import os
import pickle
import struct
import sys
import warnings


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import vectorbt as vbt
    vbt.settings.numba["check_func_type"] = False
    from vt.checks import z03
    inp = sys.stdin.buffer
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        req = pickle.loads(inp.read(struct.unpack("<q", h)[0]))
        b = pickle.dumps(z03.evaluate(*req))
        out.write(struct.pack("<q", len(b)) + b)
        out.flush()


if __name__ == "__main__":
    main()
