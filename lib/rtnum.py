"""Numbers of the specification (see spec/RtNum.tla) against doubles of the code."""
from fractions import Fraction
from functools import lru_cache
import math


@lru_cache(maxsize=200000)
def parse(s):
    """(value as a double, error or None when exact)"""
    if s.startswith("~"):
        v, e = s[1:].split("@")
        return float(v), float(e)
    f = Fraction(s)
    return float(f), None


def val(s):
    return parse(s)[0]


def close(s, x, scale=1.0):
    if isinstance(x, str):
        return False
    v, e = parse(s)
    m = max(abs(v), scale)
    return abs(x - v) <= (1e-11 * m if e is None else e + 1e-9 * m)


def exact(s, x):
    return not isinstance(x, str) and parse(s)[0] == x


def number(s):
    """JSON number of an exact value: an integer when it is one"""
    f = Fraction(s)
    return int(f) if f.denominator == 1 and abs(f) < 2**53 else float(f)
