"""Exact transport of recorded floating point numbers to the specification."""
import math
import numpy as np


def big(i):
    return int(i) if -2**31 < i < 2**31 else str(int(i))


def rq(x):
    """a float as the exact rational [n, d]; d = 0 if it is not a finite real number"""
    try:
        if isinstance(x, complex) or isinstance(x, np.complexfloating):
            if x.imag != 0:
                return dict(n=0, d=0)
            x = x.real
        x = float(x)
    except (TypeError, ValueError):
        return dict(n=1, d=0)
    if not math.isfinite(x):
        return dict(n=2, d=0)
    n, d = x.as_integer_ratio()
    return dict(n=big(n), d=big(d))


def rqs(a):
    """nested lists / arrays"""
    if hasattr(a, 'tolist'):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [rqs(x) for x in a]
    return rq(a)


def q(n, d=1):
    g = math.gcd(n, d)
    return dict(n=n // g, d=d // g)


def fl(r):
    return int(r['n']) / int(r['d'])
