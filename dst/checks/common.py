from ..core import Violation
EPS = 1e-3


def deadline_seq(hist, t):
    """position in the event order just after the last event seen before virtual time t"""
    m = 0
    for o in hist:
        if o.t0 < t:
            m = max(m, o.inv)
        if o.t1 < t:
            m = max(m, o.ret)
    return m + 0.5


def require(cond, klass, msg):
    if not cond:
        raise Violation(klass, msg)
