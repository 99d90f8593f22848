"""Small algebras under the analyses, explored whole: sets of states with conditions (transition),
edges of a machine (FiniteStateMachine), trees laid over one another (mergeTree), paths of a tree (split).

These are steps between the texts and the results; a version of the code that has no such function is
not judged here (the texts are)."""
import inspect
import itertools

from pyverilog.dataflow import dataflow as D

from mc import core, fsm, vp

TEXT = 'module m(input CLK, input c, input d, input x, input y, output reg [1:0] state); always @(posedge CLK) if (c) state <= 0; else if (state == 1) state <= 2; endmodule'
VALS = [dict(c=c, d=d) for c in (0, 1) for d in (0, 1)]


class Base(object):
    def __init__(self):
        self.ctl = fsm.Control(TEXT)
        self.t = {n: D.DFTerminal(self.ctl.by['m.' + n]) for n in 'cdxy'}

    def cond(self, k):
        """None, 'c', '!c'..."""
        if k is None:
            return None
        t = self.t[k[-1]]
        return D.DFOperator((t,), 'Ulnot') if k[0] == '!' else t

    def true(self, cond, env):
        return self.ctl.true(cond, {'m.' + k: v for k, v in env.items()})


def holds(k, env):
    return k is None or (env[k[-1]] != 0) == (k[0] != '!')


def usable(f, n):
    """a function that can be called with n arguments"""
    try:
        inspect.signature(f).bind(*([None] * n))
        return True
    except (TypeError, ValueError):
        return False


# -- sets of states with conditions --------------------------------------------------------
def intervals(hi=3):
    """every list of disjoint intervals of 0..hi, adjacent ones included"""
    def go(lo):
        yield ()
        for a in range(lo, hi + 1):
            for b in range(a, hi + 1):
                for r in go(b + 1):
                    yield ((a, b),) + r
    return list(go(0))


def state_nodes(th):
    conds = (None, 'c', '!c') + (('d',) if th else ())
    for k in conds:
        yield (None, k)
        for iv in intervals():
            yield (iv, k)
            if len(iv) == 2 and th:
                yield (iv[::-1], k)


def state_sets(st, th, i, n):
    from pyverilog.controlflow import transition as tr
    need = (('StateNode', 5), ('StateNodeList', 1), ('notStateNodeList', 1), ('andStateNodeList', 2), ('orStateNodeList', 2), ('isStateNodeList', 1))
    if not all(usable(getattr(tr, f, None), k) for f, k in need):
        st.count('absent')
        return
    b = Base()

    def make(d):
        if isinstance(d, list):
            return tr.StateNodeList(tuple(make(x) for x in d))
        iv, k = d
        if iv is None:
            return tr.StateNode(maxvalue=3, transcond=b.cond(k), isany=True)
        return tr.StateNode(range_pairs=iv, maxvalue=3, transcond=b.cond(k))

    def want(d):
        if isinstance(d, list):
            return set().union(*[want(x) for x in d])
        iv, k = d
        return {(s, j) for s in range(4) for j, e in enumerate(VALS) if holds(k, e) and (iv is None or any(lo <= s <= hi for lo, hi in iv))}

    def got(n):
        if n is None:
            return None
        if tr.isStateNodeList(n):
            return set().union(*[got(x) for x in n.nodelist])
        r = set()
        for j, e in enumerate(VALS):
            if b.true(n.transcond, e):
                for s in range(4):
                    if n.isany or any(lo <= s <= hi for lo, hi in n.range_pairs):
                        r.add((s, j))
        if any(lo > hi or lo < 0 or hi > 3 for lo, hi in n.range_pairs):
            r.add('range')
        return r
    everything = {(s, j) for s in range(4) for j in range(len(VALS))}

    def judge(key, f, w):
        st.count('evaluations')
        st.count('transitions', 16)
        q = core.attempt(lambda: got(f()))
        if q != ('ok', w):
            st.fail(key, 'stands for %s, not %s' % (q[1:] if q[0] == 'exc' else sorted(map(str, q[1] or ())), sorted(w)))
            return
        st.state(key)

    ds = list(state_nodes(th))
    few = [d for d in ds if d[0] in (None, (), ((1, 1),), ((0, 1), (3, 3)), ((0, 3),))]
    lists = [list(p) for p in itertools.product(few, repeat=2)]
    m = 0
    for x in ds + lists:
        m += 1
        if m % n == i:
            judge('not %s' % (x,), lambda: tr.notStateNodeList(make(x)), everything - want(x))
    for x, y in itertools.chain(itertools.product(ds, repeat=2), itertools.product(lists, few), itertools.product(few, lists), itertools.product(lists[::1 if th else 3], lists[::1 if th else 3])):
        m += 1
        if m % n == i:
            judge('%s and %s' % (x, y), lambda: tr.andStateNodeList(make(x), make(y)), want(x) & want(y))
            judge('%s or %s' % (x, y), lambda: tr.orStateNodeList(make(x), make(y)), want(x) | want(y))


# -- edges of a machine ----------------------------------------------------------------------
def edge_sequences(st, th, i, n):
    from pyverilog.controlflow import controlflow_analyzer as ca
    if not hasattr(ca, 'FiniteStateMachine') or not all(usable(getattr(ca.FiniteStateMachine, f, None), k) for f, k in (('add', 4), ('add_any', 3), ('resolve', 2))):
        st.count('absent')
        return
    b = Base()
    ops = [(r, d, k) for k in ((None, 'c', '!c') + (('d', '!d') if th else ())) for r in ((0, 0), (0, 1), (1, 1), None) for d in (0, 2)]
    for m, seq in enumerate(s for l in (1, 2, 3) for s in itertools.product(ops, repeat=l)):
        if m % n != i:
            continue
        want = {(s, j): {d for r, d, k in seq if (r is None or r[0] <= s <= r[1]) and holds(k, e)} for s in (0, 1) for j, e in enumerate(VALS)}
        if any(len(v) > 1 for v in want.values()):
            continue
        f = ca.FiniteStateMachine('m.state')

        def run():
            for r, d, k in seq:
                if r is None:
                    f.add_any(d, b.cond(k))
                else:
                    f.add(r, d, b.cond(k))
            before = edges(f)
            f.resolve(b.ctl.ca.optimizer)
            return before, edges(f)

        def edges(f):
            got = {}
            for s in (0, 1):
                for j, e in enumerate(VALS):
                    got[s, j] = {d for k, d in list(f.any.items()) + list(f.fsm.get(s, {}).items()) if b.true(k, e)}
            return got
        st.count('evaluations')
        st.count('transitions', 8)
        q = core.attempt(run)
        if q != ('ok', (want, want)):
            st.fail('edges %s' % (seq,), 'added and resolved they lead to %s, not %s' % (q[1:], want))
            return
        st.state(seq)


# -- trees -----------------------------------------------------------------------------------
def trees(depth, leaves, conds='cd'):
    r = list(leaves)
    for _ in range(depth):
        r = list(leaves) + [(k, p, q) for k in conds for p in r for q in r]
    return r


def follow(d, env):
    while isinstance(d, tuple):
        d = d[1] if env[d[0]] else d[2]
    return d


def overlays(st, th, i, n):
    from pyverilog.dataflow import merge
    b = Base()
    ca = b.ctl.ca
    try:
        mg = merge.VerilogDataflowMerge('m', *[getattr(ca, a) for a in ('terms', 'binddict', 'resolved_terms', 'resolved_binddict', 'constlist')])
    except Exception:
        st.count('absent')
        return
    if not usable(getattr(mg, 'mergeTree', None), 2):
        st.count('absent')
        return

    def make(d):
        if isinstance(d, tuple):
            return D.DFBranch(b.t[d[0]], make(d[1]), make(d[2]))
        return None if d is None else b.t[d]

    def value(t, env):
        while isinstance(t, D.DFBranch):
            t = t.truenode if b.true(t.condnode, env) else t.falsenode
        return None if t is None else str(t)

    small, big = trees(1, (None, 'x', 'y')), trees(2, (None, 'x', 'y'))
    pairs = itertools.product(big, repeat=2) if th else itertools.chain(itertools.product(small, repeat=2), itertools.product(big, small), itertools.product(small, big), itertools.product(big[::23], big[::17]))
    for m, (p, q) in enumerate(pairs):
        if m % n != i:
            continue
        st.count('evaluations')
        want = []
        for e in VALS:
            v = follow(q, e)
            v = follow(p, e) if v is None else v
            want.append(None if v is None else str(b.t[v]))
        st.count('transitions', 4)
        r = core.attempt(lambda: (lambda t: [value(t, e) for e in VALS])(mg.mergeTree(make(p), make(q))))
        if r != ('ok', want):
            st.fail('%s under %s' % (p, q), 'laid over one another under c, d = 00, 01, 10, 11 they give %s, not %s' % (r[1:], want))
            return
        st.state((p, q))


def paths(st, th, i, n):
    from pyverilog.controlflow import splitter
    if not usable(getattr(splitter, 'split', None), 1):
        st.count('absent')
        return
    b = Base()
    # (what is bound in no branch has no tree: a branch without any part is not looked at)
    one = [d for d in trees(1, (None, 'x')) if not isinstance(d, tuple) or d[1:] != (None, None)]
    two = [None, 'x'] + [(k, p, q) for k in 'cd' for p in one for q in one if (p, q) != (None, None)]
    tops = ((k, p, q) for k in 'cd' for p in two for q in two)
    for m, d in enumerate(tops):
        if m % n != i or d[1:] == (None, None):
            continue
        count = itertools.count()

        def mark(d):
            """every leaf its own"""
            return (d[0], mark(d[1]), mark(d[2])) if isinstance(d, tuple) else None if d is None else next(count)
        d = mark(d)

        def make(d):
            return D.DFBranch(b.t[d[0]], make(d[1]), make(d[2])) if isinstance(d, tuple) else None if d is None else D.DFEvalValue(d)
        st.count('evaluations')
        st.count('transitions', 4)
        want = [[] if follow(d, e) is None else [follow(d, e)] for e in VALS]
        q = core.attempt(lambda: (lambda f: [[v.value for ks, v in f.items() if all(b.true(k, e) for k in ks)] for e in VALS])(splitter.split(make(d))))
        if q != ('ok', want):
            st.fail('paths of %s' % (d,), 'under c, d = 00, 01, 10, 11 the paths give %s, not %s' % (q[1:], want))
            return
        st.state(d)
