"""P18: merging partial assignments gives every bit its own driver."""
import itertools

from pyverilog.dataflow.dataflow import DFEvalValue, DFTerminal
from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
from pyverilog.dataflow.walker import VerilogDataflowWalker

from mc import algebra, core, dfv, sim, vp
from mc.checks.p15_comb import show
from mc.checks.p16_clocked import N, P, clocked_of, conform as conform_clocked, domain, spaces
from mc.sim import B, CALL, CAT, IX, K, PS, T, U, V, Design, Func, Sig

CLK = Sig('CLK', 'input')
INS = [Sig('a', 'input', 3, 0), Sig('b', 'input', 1, 0), Sig('c', 'input'), Sig('s', 'input')]
a, b, c, s, x = (V(n) for n in 'abcsx')


class Merged(object):
    """a design analysed and its walker, with constants resolved as the examples do"""

    def __init__(self, d):
        an = vp.analyze(d.text(), d.name)
        self.terms, self.binds = an.getTerms(), an.getBinddict()
        o = VerilogDataflowOptimizer(self.terms, self.binds)
        o.resolveConstant()
        self.walker = VerilogDataflowWalker(d.name, self.terms, self.binds, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        self.flow = sim.Flow(self.terms, self.binds)


def judge(d, key, st, walk=True):
    if any(i[0] == 'always' and sim.mixes(i[2]) for i in d.items):
        st.count('outside')
        return True
    top = d.name
    st.count('evaluations')
    q = core.attempt(lambda: Merged(d))
    if q[0] == 'exc':
        st.fail(key, 'analysis raised %s: %s' % (q[1], q[2]), {'text': d.text()})
        return False
    mg = q[1]
    flow = mg.flow
    driven = {n for i in d.items for n in sim.item_uses(i, d)[1]}
    targets = [g for g in d.sigs if g.kind not in ('input', 'integer') and g.name in driven]
    trees = []      # (signal, how, function of valuation -> wanted value, tree)
    for g in targets:
        n = flow.by[top + '.' + g.name]
        asked = [('getTree', lambda: mg.walker.getTree(n))]
        if walk:
            asked.append(('walkBind', lambda: mg.walker.walkBind(top + '.' + g.name)))
        if g.dims:
            asked = [('word %d' % i, lambda i=i: mg.walker.getTree(n, DFEvalValue(i))) for i in range(min(g.dims), max(g.dims) + 1)]
            asked.append(('word a[1:0]', lambda: mg.walker.getTree(n, DFTerminal(flow.by[top + '.b']))))
        for how, fn in asked:
            r = core.attempt(fn)
            if r[0] == 'exc':
                st.fail(key, '%s of %s raised %s: %s' % (how, g.name, r[1], r[2]), {'text': d.text()})
                return False
            if g.dims and isinstance(r[1], DFTerminal) and r[1].name == n:
                st.count('words left as they are')      # not expanded: the word itself
                if not any(variable(l) for i in d.items for l in targets_of(i) if l[1] == g.name):
                    st.fail(key, '%s of %s is not given although every index is constant' % (how, g.name), {'text': d.text()})
                    return False
                continue
            trees.append((g, how, r[1]))
    m = sim.Machine(d)
    free, fixed = spaces(d)
    regs = {g.name for g in clocked_of(d)}
    bad = set()
    for vs in itertools.product(*[domain(g) for g in free]):
        st.count('transitions')
        full = dict(fixed)
        full.update((g.name, v) for g, v in zip(free, vs))
        full['CLK'] = 1
        try:
            ref = m.settle(full)
            if regs:
                ref.update(m.step(full))
        except dfv.Skip:
            continue
        vals = sim.Values(flow, {'%s.%s' % (top, n): tuple(v) if isinstance(v, (list, tuple)) else v for n, v in full.items()})
        for g, how, tree in trees:
            if how.startswith('word'):
                i = full['b'] if how == 'word a[1:0]' else int(how.split()[1])
                if not min(g.dims) <= i <= max(g.dims):
                    continue
                want = ref[g.name][i - min(g.dims)]
                now = full[g.name][i - min(g.dims)] if g.name in full else 0
            else:
                want, now = ref[g.name], full.get(g.name, 0)
            if (want[1] | want[2]) == dfv.mask(g.width):
                continue
            try:
                if tree is None:
                    got = (0, 0, dfv.mask(g.width))
                else:
                    w, sg = flow.ev.shape(tree)
                    got = flow.ev.ev(tree, vals, max(g.width, w), sg)
                    got = tuple(z & dfv.mask(g.width) for z in got[:3])
                    if w < g.width and got[2] and got[2] == dfv.mask(w):
                        got = (0, 0, dfv.mask(g.width))
                got = (got[0] & ~got[1], got[1], got[2])
                if g.name in regs:
                    free_bits = got[1] & ~driven_bits(d, g, i if g.dims else None)     # a bit that nothing assigns: undefined, or its value
                    got = (got[0], got[1] & ~free_bits, got[2] | free_bits)
                    got = ((got[0] & ~got[2]) | (now & got[2]), got[1] & ~got[2], 0)
                    want = ((want[0] & ~want[2]) | (now & want[2]), want[1] & ~want[2], 0)
            except (dfv.Skip, dfv.Bad) as ex:
                got = ex
            st.count('judged')
            st.count('traces')
            if not isinstance(got, Exception):
                k = want[1] | want[2]
                got = (got[0], got[1] | got[2], 0)
                want = (want[0] & ~k, k, 0)
            if isinstance(got, Exception) or not dfv.same(want + (g.width,), got + (g.width,)):
                st.fail(key, 'with %s, %s is %s and the %s of it gives %s' % (
                    {q.name: v for q, v in zip(free, vs)}, g.name, show(want, g.width), how, 'no value (%s)' % got if isinstance(got, Exception) else show(got, g.width)),
                    {'text': d.text(), 'tree': None if tree is None else tree.tostr()})
                return False
    st.state(key)
    st.outcome(tuple(None if t is None else t.tostr() for g, h, t in trees))
    return True


def driven_bits(d, g, word=None):
    r = 0
    for i in d.items:
        for l in targets_of(i):
            if l[1] == g.name:
                if word is not None and l[2][0] == 'c' and int(l[2][1]) != word:
                    continue
                if l[0] == 'part':
                    p, q = l[2:4]
                elif l[0] == 'mpart':
                    p, q = l[3:5]
                elif l[0] == 'midx':
                    p = q = l[3]
                elif l[0] == 'idx' and not g.dims and l[2][0] == 'c':
                    p = q = int(l[2][1])
                else:
                    return dfv.mask(g.width)
                p, q = (g.low - p, g.low - q) if g.desc else (p - g.low, q - g.low)
                r |= dfv.mask(p - q + 1) << q
    return r


def targets_of(i):
    r = []

    def lhs(l):
        if l[0] == 'cat':
            for y in l[1:]:
                lhs(y)
        else:
            r.append(l)

    def stmts(ss):
        for t in ss:
            if t[0] in ('=', '<='):
                lhs(t[1])
            for y in t[1:]:
                if isinstance(y, list):
                    for q in y:
                        if isinstance(q, tuple) and isinstance(q[0], str):
                            stmts([q])
                        elif isinstance(q, tuple):
                            stmts(q[1])
    if i[0] == 'assign':
        lhs(i[1])
    elif i[0] == 'always':
        stmts(i[2])
    return r


def variable(l):
    return l[0] in ('idx', 'mpart', 'midx') and l[2][0] != 'c'


# -- families -----------------------------------------------------------------------------
def segments(n):
    """every way to cut n bits into consecutive parts, as lists of (low bit, width)"""
    for cuts in itertools.product((0, 1), repeat=n - 1):
        r, lo = [], 0
        for i, k in enumerate(cuts + (1,)):
            if k:
                r.append((lo, i + 1 - lo))
                lo = i + 1
        yield r


RANGES = [(3, 0), (4, 1), (0, 3), (1, 4), (2, 0), (0, 1)]


def part(sig, lo, w):
    """the target naming w bits of sig from bit position lo"""
    f = (lambda p: sig.low - p) if sig.desc else (lambda p: sig.low + p)
    if w == sig.width:
        return V(sig.name)
    if w == 1:
        return IX(sig.name, f(lo))
    return PS(sig.name, f(lo + w - 1), f(lo))


def pieces(th):
    """lists of disjoint (low, width) in every order, some parts left out"""
    for n in (2, 3, 4):
        for segs in segments(n):
            for keep in itertools.product((1, 0), repeat=len(segs)):
                u = [g for g, k in zip(segs, keep) if k]
                if u:
                    for o in itertools.permutations(u):
                        yield n, list(o)


def source(w, j):
    """an expression of exactly w bits"""
    return {1: [c, IX('a', j % 4), U('~', s), B(b, '==', K("2'd1"))],
            2: [b, PS('a', 2, 1), CAT(s, c), B(PS('a', 1, 0), '^', b)],
            3: [PS('a', 2, 0), CAT(b, s), PS('a', 3, 1), U('~', PS('a', 3, 1))],
            4: [a, U('~', a), CAT(b, c, s), B(a, '+', CAT(b, b))]}[w][j % 4]


def cond(w, j, z, l):
    """statements that write a w-bit source to l in branches"""
    e, f = source(w, j), source(w, j + 1)
    return [[z(l, e)], [('if', c, [z(l, e)], [z(l, f)])], [('if', s, [z(l, e)], None)], [('case', b, [([K("2'd1")], [z(l, e)]), (None, [z(l, f)])])]][j % 4]


def partitions(th):
    W = lambda m, l: Sig('x', 'wire', m, l)
    R = lambda m, l: Sig('x', 'reg', m, l)
    for m, l in RANGES:
        n0 = abs(m - l) + 1
        for n, ps in pieces(th):
            if n != n0:
                continue
            if not th and (m, l) not in ((3, 0), (0, 3)) and ps != sorted(ps) and ps != sorted(ps, reverse=True):
                continue
            for k in (0, 1) if th else (0,):
                w = W(m, l)
                yield 'assign', [w], [('assign', part(w, p, q), source(q, j + k)) for j, (p, q) in enumerate(ps)], ()
                r = R(m, l)
                yield 'comb', [r], [('always', '*', [P(part(r, p, q), source(q, j + k)) for j, (p, q) in enumerate(ps)])], ()
                yield 'clocked', [r], [('always', '(posedge CLK)', [N(part(r, p, q), source(q, j + k)) for j, (p, q) in enumerate(ps)])], ()
                yield 'clocked branches', [r], [('always', '(posedge CLK)', [t for j, (p, q) in enumerate(ps) for t in cond(q, j + k, N, part(r, p, q))])], ()
                yield 'comb branches', [r], [('always', '*', [t for j, (p, q) in enumerate(ps) for t in cond(q, j + k, P, part(r, p, q))])], ()
                if len(ps) > 1:
                    yield 'blocks', [r], [('always', '(posedge CLK)', cond(q, j + k + 1, N, part(r, p, q))) for j, (p, q) in enumerate(ps)], ()
                    total = sum(q for p, q in ps)
                    yield 'concat', [w], [('assign', CAT(*[part(w, p, q) for p, q in ps]), source(total, k) if total < 4 else a)], ()
                    yield 'one if', [r], [('always', '(posedge CLK)', [('if', c, [N(part(r, p, q), source(q, j)) for j, (p, q) in enumerate(ps)], [N(part(r, p, q), source(q, j + 1)) for j, (p, q) in enumerate(reversed(ps))])])], ()


def widths(th):
    """sources wider and narrower than their part"""
    es = [K('0'), K('1'), K("4'd9"), K("1'b1"), a, c, b, B(c, '+', s), B(b, '+', b), T(c, s, b), CAT(c, b), U('~', c), B(a, '>', b), B(a, '&&', c), IX('a', 0), U('-', b), B(b, '-', K('1')), B(a, '>>', b), B(c, '<<', b), B(b, '*', b)]
    for m, l in ((3, 0), (0, 3), (4, 1)):
        w = Sig('x', 'wire', m, l)
        r = Sig('x', 'reg', m, l)
        for ps in ([(0, 2), (2, 2)], [(2, 2), (0, 2)], [(0, 3), (3, 1)], [(0, 1), (1, 3)], [(1, 2)], [(0, 2)], [(2, 1), (0, 1)]):
            for i, e in enumerate(es):
                for j, f in enumerate(es):
                    if (i + j) % 3 and not th:
                        continue
                    if j and len(ps) == 1:
                        break
                    v = [e, f][:len(ps)]
                    yield 'assign', [w], [('assign', part(w, p, q), g) for g, (p, q) in zip(v, ps)], ()
                    if i == j or th:
                        yield 'clocked', [r], [('always', '(posedge CLK)', [N(part(r, p, q), g) for g, (p, q) in zip(v, ps)])], ()
                        yield 'guarded', [r], [('always', '(posedge CLK)', [('if', s, [N(part(r, p, q), g) for g, (p, q) in zip(v, ps)], None)])], ()


def overlapped(th):
    """parts over a whole: a reset or a default followed by parts, in branches that exclude each other or in order"""
    for m, l in ((3, 0), (0, 3), (4, 1), (2, 0)):
        r = Sig('x', 'reg', m, l)
        n = r.width
        whole = V('x')
        for n0, ps in pieces(th):
            if n0 != n or (len(ps) == 1 and ps[0][1] == n):
                continue
            if not th and ps != sorted(ps) and ps != sorted(ps, reverse=True):
                continue
            for k, e in enumerate([K("%d'd5" % n if n == 4 else "%d'd5" % n), source(n, 0)]):
                body = [N(part(r, p, q), source(q, j)) for j, (p, q) in enumerate(ps)]
                yield 'reset', [r], [('always', '(posedge CLK)', [('if', s, [N(whole, e)], body)])], ()
                yield 'reset later', [r], [('always', '(posedge CLK)', [('if', s, body, [N(whole, e)])])], ()
                yield 'reset guarded', [r], [('always', '(posedge CLK)', [('if', s, [N(whole, e)], [('if', c, body, None)])])], ()
                yield 'default', [r], [('always', '*', [P(whole, e)] + [P(part(r, p, q), source(q, j)) for j, (p, q) in enumerate(ps)])], ()
                yield 'default guarded', [r], [('always', '*', [P(whole, e)] + [t for j, (p, q) in enumerate(ps) for t in cond(q, j, P, part(r, p, q))])], ()
                yield 'default if', [r], [('always', '*', [P(whole, e), ('if', c, [P(part(r, p, q), source(q, j)) for j, (p, q) in enumerate(ps)], None)])], ()
        # parts that cut each other, each assigned in its own branch
        for p1 in [(lo, w) for w in range(1, n + 1) for lo in range(n - w + 1)]:
            for p2 in [(lo, w) for w in range(1, n + 1) for lo in range(n - w + 1)]:
                if p1 == p2:
                    continue
                t1, t2 = N(part(r, *p1), source(p1[1], 0)), N(part(r, *p2), source(p2[1], 1))
                yield 'either', [r], [('always', '(posedge CLK)', [('if', c, [t1], [t2])])], ()
                yield 'in order', [r], [('always', '(posedge CLK)', [t1, t2])], ()
                yield 'in order guarded', [r], [('always', '(posedge CLK)', [t1, ('if', c, [t2], None)])], ()


def memories(th):
    for m, l, dims in ((1, 0, (0, 1)), (None, None, (0, 3)), (1, 0, (1, 2)), (0, 1, (0, 1)), (1, 0, (1, 0))) + (((3, 0, (0, 1)), (1, 0, (0, 3))) if th else ()):
        r = Sig('x', 'reg', m, l, dims)
        lo, hi = min(dims), max(dims)
        words = range(lo, hi + 1)
        wsrc = {1: [c, s, U('~', c), B(c, '^', s)], 2: [b, CAT(c, s), U('~', b), PS('a', 1, 0)], 4: [a, U('~', a), CAT(b, b), B(a, '^', CAT(b, b))]}[r.width]
        for k in range(1, len(words) + 1):
            for ws in itertools.permutations(words, k):
                if not th and k > 2 and ws != tuple(sorted(ws)) and ws != tuple(sorted(ws, reverse=True)):
                    continue
                for z, sn in ((N, '(posedge CLK)'), (P, '*')):
                    yield 'words', [r], [('always', sn, [z(IX('x', w), wsrc[i]) for i, w in enumerate(ws)])], ()
                    yield 'words guarded', [r], [('always', sn, [('if', c, [z(IX('x', w), wsrc[i])], None) if i % 2 else z(IX('x', w), wsrc[i]) for i, w in enumerate(ws)])], ()
                    yield 'words in an if', [r], [('always', sn, [('if', s, [z(IX('x', w), wsrc[i]) for i, w in enumerate(ws)], [z(IX('x', ws[0]), wsrc[3])])])], ()
                yield 'blocks', [r], [('always', '(posedge CLK)', [N(IX('x', w), wsrc[i])]) for i, w in enumerate(ws)], ()
                if r.width == 2:
                    h = r.low - 1 if r.desc else r.low + 1
                    for u in ([r.low], [h], [h, r.low], [r.low, h]):
                        yield 'bits', [r], [('always', '(posedge CLK)', [N(('midx', 'x', K(str(w)), i), IX('b', j) if (j + w) % 2 else c) for w in ws for j, i in enumerate(u)])], ()
                    yield 'bits and words', [r], [('always', '(posedge CLK)', [('if', s, [N(IX('x', ws[0]), b)], [N(('midx', 'x', K(str(w)), h), c) for w in ws])])], ()
        w = Sig('x', 'wire', m, l, dims)
        yield 'nets', [w], [('assign', IX('x', i), wsrc[j]) for j, i in enumerate(words)], ()
        yield 'nets', [w], [('assign', IX('x', i), wsrc[j]) for j, i in enumerate(reversed(words))], ()
        if not m:
            yield 'variable', [r], [('always', '(posedge CLK)', [N(('idx', 'x', b), c)])], ()
        elif dims == (0, 1):
            yield 'variable', [r], [('always', '(posedge CLK)', [N(('idx', 'x', c), b), N(IX('x', 0), CAT(c, s))])], ()


def functions(th):
    A = lambda n, m=None, l=None: Sig(n, 'input', m, l)
    fs = [Func('f', (1, 0), [A('p', 1, 0)], [('if', IX('p', 0), [('=', V('f'), U('~', V('p')))], [('=', V('f'), V('p'))])]),
          Func('f', (1, 0), [A('p', 1, 0)], [('=', IX('f', 0), IX('p', 1)), ('=', IX('f', 1), IX('p', 0))]),
          Func('f', (1, 0), [A('p', 1, 0)], [('=', IX('f', 1), IX('p', 1)), ('=', IX('f', 0), c if False else K("1'b1"))])]
    for fn in fs:
        for m, l in ((3, 0), (0, 3), (4, 1)):
            w, r = Sig('x', 'wire', m, l), Sig('x', 'reg', m, l)
            for o in ([(0, 2), (2, 2)], [(2, 2), (0, 2)], [(1, 2)], [(2, 2), (0, 1)]):
                yield 'assign', [w], [('assign', part(w, p, q), CALL('f', source(q, j)) if q == 2 else c) for j, (p, q) in enumerate(o)], (fn,)
                yield 'clocked', [r], [('always', '(posedge CLK)', [N(part(r, p, q), CALL('f', source(q, j)) if q == 2 else c) for j, (p, q) in enumerate(o)])], (fn,)


def chains(th):
    """signals built of parts that read parts of one another"""
    for m, l in ((3, 0), (0, 3), (4, 1)):
        w, y = Sig('x', 'wire', m, l), Sig('y', 'wire', m, l)
        for n, ps in pieces(th):
            if n != 4 or len(ps) != 2 or sum(q for p, q in ps) != 4:
                continue
            for qs in ([(0, 2), (2, 2)], [(2, 2), (0, 2)], [(3, 1), (0, 3)], [(0, 4)]):
                it = [('assign', part(w, p, q), source(q, j)) for j, (p, q) in enumerate(ps)]
                for j, (p, q) in enumerate(qs):
                    it.append(('assign', part(y, p, q), part(w, (3 - p) % (5 - q), q)))
                yield 'wires', [w, y], it, ()
                yield 'wires backwards', [w, y], list(reversed(it)), ()
        for o in ([(0, 2), (2, 2)], [(3, 1), (0, 3)], [(0, 4)]):
            it = [('assign', part(w, p, q), source(q, j)) for j, (p, q) in enumerate(o)]
            lo = min(m, l)
            at = b if not lo else B(b, '+', K("3'd1"))
            y2 = Sig('y', 'wire', 1, 0)
            y1 = Sig('y', 'wire')
            z = Sig('z', 'wire', 3, 0)
            for e in (IX('x', at), U('!', IX('x', at)), B(IX('x', at), '&', c)):
                yield 'variable bit', [w, y1], it + [('assign', V('y'), e)], ()
                yield 'variable bit of a copy', [w, z, y1], it + [('assign', V('z'), V('x')), ('assign', V('y'), IX('z', b))], ()
                yield 'variable bit of a copy', [w, z, y1], [('assign', V('z'), B(a, '^', CAT(b, b))), ('assign', V('x'), V('z')), ('assign', V('y'), e)], ()
            for e in (('ip', 'x', B(at, '>>', K('1')) if not lo else T(c, K('1'), K('3')), 2), ('im', 'x', T(c, K(str(lo + 1)), K(str(lo + 3))), 2)):
                yield 'variable part', [w, y2], it + [('assign', V('y'), e)], ()
        r = Sig('x', 'reg', m, l)
        yield 'shift', [r], [('always', '(posedge CLK)', [N(part(r, 0, 1), c), N(part(r, 1, 3), part(r, 0, 3))])], ()
        yield 'shift', [r], [('always', '(posedge CLK)', [N(part(r, 1, 3), part(r, 0, 3)), N(part(r, 0, 1), c)])], ()
        yield 'swap', [r], [('always', '(posedge CLK)', [N(part(r, 0, 2), part(r, 2, 2)), N(part(r, 2, 2), part(r, 0, 2))])], ()
        yield 'rotate', [r], [('always', '(posedge CLK)', [N(part(r, i, 1), part(r, (i + 1) % 4, 1)) for i in range(4)])], ()
        yield 'register to wire', [r, y], [('always', '(posedge CLK)', [N(part(r, 0, 2), b), N(part(r, 2, 2), part(y, 0, 2))]), ('assign', part(y, 0, 2), part(r, 1, 2)), ('assign', part(y, 2, 2), CAT(c, s))], ()


def longs(th):
    """signals of many parts, memories of many words (positions and addresses with two digits)"""
    one = lambda j: [c, s, IX('a', j % 4), IX('b', j % 2), U('~', c), B(c, '^', IX('a', j % 3))][j * 5 % 6]
    for n in (9, 10, 11, 12, 16, 17, 33) if th else (10, 12, 17):
        for m, l in ((n - 1, 0), (0, n - 1), (n + 2, 3)):
            w, r, y = Sig('x', 'wire', m, l), Sig('x', 'reg', m, l), Sig('y', 'wire', m, l)
            bits = [(j, 1) for j in range(n)]
            mixed = [(0, 1)] + [(j, 2) for j in range(1, n - 1, 2)] + ([(n - 1, 1)] if n % 2 == 0 else [])
            for ps in (bits, bits[::-1], bits[1::2] + bits[::2], bits[::2], mixed, mixed[::-1]):
                v = lambda j, q: one(j) if q == 1 else source(2, j)
                yield 'assign', [w], [('assign', part(w, p, q), v(j, q)) for j, (p, q) in enumerate(ps)], ()
                yield 'comb', [r], [('always', '*', [P(part(r, p, q), v(j, q)) for j, (p, q) in enumerate(ps)])], ()
                yield 'clocked', [r], [('always', '(posedge CLK)', [N(part(r, p, q), v(j, q)) for j, (p, q) in enumerate(ps)])], ()
                yield 'one if', [r], [('always', '(posedge CLK)', [('if', c, [N(part(r, p, q), v(j, q)) for j, (p, q) in enumerate(ps)], [N(part(r, p, q), v(j + 1, q)) for j, (p, q) in enumerate(ps[::-1])])])], ()
                yield 'each if', [r], [('always', '(posedge CLK)', [('if', IX('a', j % 4), [N(part(r, p, q), v(j, q))], None) for j, (p, q) in enumerate(ps)])], ()
                yield 'reset', [r], [('always', '(posedge CLK)', [('if', s, [N(V('x'), K("%d'd5" % n))], [N(part(r, p, q), v(j, q)) for j, (p, q) in enumerate(ps)])])], ()
                yield 'default', [r], [('always', '*', [P(V('x'), K("%d'd5" % n))] + [P(part(r, p, q), v(j, q)) for j, (p, q) in enumerate(ps)])], ()
                yield 'blocks', [r], [('always', '(posedge CLK)', [N(part(r, p, q), v(j, q))]) for j, (p, q) in enumerate(ps)], ()
                yield 'wires', [w, y], [('assign', part(w, p, q), v(j, q)) for j, (p, q) in enumerate(ps)] + [('assign', part(y, p, q), part(w, n - p - q, q)) for p, q in ps], ()
                if sum(q for p, q in ps) == n:
                    yield 'concat', [w, y], [('assign', V('y'), CAT(*[one(j) for j in range(n)])), ('assign', CAT(*[part(w, p, q) for p, q in ps]), V('y'))], ()
            yield 'rotate', [r], [('always', '(posedge CLK)', [N(part(r, i, 1), part(r, (i + 1) % n, 1)) for i in range(n)])], ()
            yield 'shift', [r], [('always', '(posedge CLK)', [N(part(r, 0, 1), c), N(part(r, 1, n - 1), part(r, 0, n - 1))])], ()
        r = Sig('x', 'reg', 1, 0, (0, n - 1))
        for ws in (range(n), range(n - 1, -1, -1), range(0, n, 3)):
            for z, sn in ((N, '(posedge CLK)'), (P, '*')):
                yield 'words', [r], [('always', sn, [z(IX('x', w), source(2, w)) for w in ws])], ()
                yield 'words guarded', [r], [('always', sn, [('if', IX('a', w % 4), [z(IX('x', w), source(2, w))], None) for w in ws])], ()


FAMILIES = {'longs': longs, 'partitions': partitions, 'widths': widths, 'overlapped': overlapped, 'memories': memories, 'functions': functions, 'chains': chains}
SIMULATED = {'partitions': 61, 'widths': 37, 'overlapped': 31, 'memories': 23, 'functions': 3, 'chains': 7}


def designs(f, th):
    for k, sg, it, fs in FAMILIES[f](th):
        uses = any(i[0] == 'always' and 'CLK' in i[1] for i in it)
        yield '%s: %s: %s %s %s' % (f, k, ' '.join(g.text() for g in sg), ' '.join(q.text() for q in fs), ' '.join(sim.item_text(i) for i in it)), Design(([CLK] if uses else []) + INS + sg, it, fs)


def conform(ds, st):
    for part_ in core.chunks(ds, 40):
        clocked = [(k, d) for k, d in part_ if 'CLK' in d.by]
        conform_clocked(clocked, st, ('CLK', 'RST', 'a', 'b', 'c', 's'))
        jobs, want = [], []
        for j, (key, d) in enumerate(part_):
            obs = [g for g in d.sigs if g.kind != 'input' and not g.dims]
            if 'CLK' in d.by or not obs:
                continue
            m = sim.Machine(d)
            free, fixed = spaces(d)
            vecs, refs = [], []
            for vs in itertools.product(*[domain(g) for g in free]):
                full = dict(fixed)
                full.update((g.name, v) for g, v in zip(free, vs))
                try:
                    refs.append(m.settle(full))
                except dfv.Skip:
                    continue
                vecs.append(full)
            jobs.append((Design(d.sigs, d.items, d.funcs, 'd%d' % j).text(), 'd%d' % j, [(g.name, g.width) for g in d.sigs if g.kind == 'input'], vecs, [g.name for g in obs], False))
            want.append((key, obs, refs))
        if jobs:
            for (key, obs, refs), got, job in zip(want, sim.simulate(jobs), jobs):
                for ref, vals, env in zip(refs, got, job[3]):
                    for g, p in zip(obs, vals):
                        st.count('simulator_comparisons')
                        if not sim.agrees(ref[g.name], p, g.width):
                            raise RuntimeError('reference and simulator differ: %s: with %s, %s is %s, simulator %s\n%s' % (key, env, g.name, show(ref[g.name], g.width), p, job[0]))


def run(ctx):
    th = ctx.thorough
    n = 16 if th else 8

    def work(u, st):
        f, i, k = u
        if f == 'overlays':
            return algebra.overlays(st, th, i, k)
        if f == 'simulate':
            return conform(((key, d) for j, (key, d) in enumerate(designs(i, th)) if j % SIMULATED[i] == 0), st)
        for j, (key, d) in enumerate(designs(f, th)):
            if j % k == i:
                judge(d, key, st, walk=f != 'widths')

    with core.quiet():
        ctx.explore([(f, i, n) for f in FAMILIES for i in range(n)] + [('overlays', i, n) for i in range(n)] + [('simulate', f, 0) for f in SIMULATED], work)
    ctx.stats.count('nontrivial', ctx.stats.n['judged'])
    ctx.stats.sample(next(iter(designs('overlapped', False)))[1].text())
    ctx.rule = ('one state is one design analysed, optimised and merged by the real code; its transitions are all valuations of its inputs and registers, for each of which the tree '
                'returned by getTree and walkBind for every driven signal is evaluated and compared with the reference interpreter; distinct_observed_outcomes are different sets of trees')
    ctx.bounds = {
        'partitions': 'every cut of 2, 3 and 4 bits into parts, every subset of the parts, every order; ranges %s; continuous assignments, combinational and clocked blocks, one block per part, concatenated targets, branches' % RANGES,
        'widths': '20 sources of other widths than their part, in pairs',
        'overlapped': 'a whole assignment with parts, as reset, as default and guarded; all pairs of different parts in exclusive branches and in order',
        'memories': 'words and bits of words with constant indices in every order; each word asked for by constant and by variable index',
        'overlays': 'mergeTree on every pair of trees of two conditions with absent branches (%s)' % ('two levels each' if th else 'one level with two levels, and a part of two with two'),
        'long members': 'partitions into and memories of 10, 12 and 17 parts (thorough: 9 to 33)',
        'functions, chains': 'the lists in mc/checks/p18_merge.py',
        'outside': 'blocks that write one variable through overlapping parts in changing order (as P15)',
    }
    ctx.assumptions = ['the installed simulator implements Verilog (the reference interpreter is compared with it on a fixed part of the same designs, every run)',
                       'an absent branch of a tree keeps the value of the signal']
