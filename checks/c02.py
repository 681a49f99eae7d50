import rays
from c01 import C as Base


class C(Base):
    id = "C02"
    rule = ("cases as for C01; the rays that the independent tracer finds at "
            "the distance are matched one to one with the arrivals; "
            "non-trivial: at least one ray well inside of a branch was "
            "expected, or the phase must have no arrival")

    def compare(self, w, zs, name, deg, arr, exp):
        return rays.check_complete(w, zs, name, deg, arr, exp) + \
            (exp[0] == "none")


CHECK = C
