"""Small linearizability checker (Wing & Gong with memoisation)."""


class LinOp:
    __slots__ = ('inv', 'ret', 'name', 'args', 'res', 'after', 'src')

    def __init__(self, inv, ret, name, args, res, after=None, src=None):
        self.inv, self.ret, self.name, self.args, self.res = inv, ret, name, args, res
        self.after = after      # another LinOp which must be linearized before this one
        self.src = src

    def __repr__(self):
        return '[%s..%s]%s%r=%r' % (self.inv, self.ret, self.name, self.args, self.res)


class Budget(Exception):
    pass


def linearizable(ops, init, step, limit=200000):
    """
    :param ops: completed operations; ret may be inf for a pending one (which may or may not have
        taken effect)
    :param init: hashable initial state
    :param step: step(state, op) -> new state, or None if op's result is impossible in that state
    :return: True/False, or None if the search budget ran out
    """
    ops = sorted(ops, key=lambda o: o.inv)
    n = len(ops)
    idx = {id(o): i for i, o in enumerate(ops)}
    pre = [idx[id(o.after)] if o.after is not None else -1 for o in ops]
    inf = float('inf')
    must = 0
    for i, o in enumerate(ops):
        if o.ret != inf:
            must |= 1 << i
    seen = set()
    stack = [(0, init)]
    work = 0
    while stack:
        done, state = stack.pop()
        if done & must == must:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        work += 1
        if work > limit:
            return None
        minret = inf
        for i in range(n):
            if not done >> i & 1 and ops[i].ret < minret:
                minret = ops[i].ret
        for i in range(n - 1, -1, -1):
            o = ops[i]
            if done >> i & 1 or o.inv > minret:
                continue
            if pre[i] >= 0 and not done >> pre[i] & 1:
                continue
            ns = step(state, o)
            if ns is None:
                continue
            stack.append((done | 1 << i, ns[0]))
    return False
