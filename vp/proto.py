"""Constants of the shared block, parsed from the harness headers."""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(os.path.dirname(HERE), "harness")


def _parse(fn):
    out = {}
    for line in open(os.path.join(HARNESS, fn)):
        m = re.match(r"#define\s+([A-Z][A-Za-z0-9_]*)\s+(0x[0-9a-fA-F]+|\d+|\(\d+ << \d+\))(?:\s|$)", line)
        if m:
            out[m.group(1)] = int(eval(m.group(2)))
    return out


K = {}
K.update(_parse("vcommon.h"))
K.update(_parse("vops.h"))


class _NS:
    def __init__(self, prefix):
        self._names = {}
        for k, v in K.items():
            if k.startswith(prefix):
                setattr(self, k[len(prefix):], v)
                self._names[v] = k[len(prefix):]

    def name(self, v):
        return self._names.get(v, str(v))


OP = _NS("OP_")
T = _NS("T_")
CB = _NS("CB_")
GP = _NS("GP_")
GW = _NS("GW_")
CFG = _NS("CFG_")
EX = _NS("EX_")
LV = _NS("LV_")
AT = _NS("AT_")
HINT = _NS("HINT_")

EXIT_NORMAL, EXIT_SIGNAL, EXIT_EXEC = 1, 2, 3
