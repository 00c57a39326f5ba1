"""The properties, the symbolic runs that decide them and their bounds."""
PROPS = {}
NOT_APPLICABLE = []


def run(h, c="", **kw):
    return dict(h=h, c=c, **kw)


def prop(id, title, statement, over, quant, why, files, mech, runs, bounds, outside="", assumptions=(), note="", observe=()):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, runs=runs,
                     bounds=bounds, outside=outside, assumptions=list(assumptions) + COMMON, level="other", note=note, observe=observe)


COMMON = [
    "doubles are interpreted as exact reals; agreement is required up to the stated relative/absolute tolerance, so rounding below it is outside the claim",
    "clang 18 -O1 IR of the sources is taken as the meaning of the code (no vectorisation, no FP contraction)",
    "the symbolic executor in /verif/engine and z3 4.8.12 are trusted; every reported violation is re-run on natively compiled code",
]
M6 = ["SM", "CxSM", "R2HDM-1", "C2HDM-1", "N2HDM-1", "CPintheDark"]
SRC = "src/models/"
MODELFILES = [SRC + "ClassPotential%s.cpp" % m for m in ("SM", "CxSM", "R2HDM", "C2HDM", "N2HDM", "CPintheDark")] + [SRC + "ClassPotentialOrigin.cpp"]

import glob as _g, os as _o
for _f in sorted(_g.glob(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), "props.d", "*.py"))):
    exec(compile(open(_f).read(), _f, "exec"))
