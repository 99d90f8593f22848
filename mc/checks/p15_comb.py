"""P15: the dataflow of combinational logic computes what the text computes."""
import itertools
import os
import shutil
import subprocess
import tempfile

from mc import core, dfv, sim, vp
from mc.sim import B, CALL, CAT, IX, K, PS, REP, T, U, V, Design, Func, Sig

INS = [Sig('a', 'input', 1, 0), Sig('b', 'input', 1, 0), Sig('c', 'input'), Sig('s', 'input')]
E4 = Sig('e', 'input', 3, 0)
a, b, c, s, e, x, y, z = (V(n) for n in 'abcsexyz')


def ins_of(d):
    return [g for g in d.sigs if g.kind == 'input']


def used(d):
    r = set()
    for i in d.items:
        q, w = sim.item_uses(i, d)
        r |= q | w
    for f in d.funcs:
        q, w = set(), set()
        sim.stmt_uses(f.body, q, w)
        r |= q
    return r


FEW4 = (0, 3, 6, 9, 13, 15)


def valuations(sigs, every=False):
    doms = [range(1 << g.width) if g.width < 4 or every else FEW4 for g in sigs]
    for vs in itertools.product(*doms):
        yield {g.name: v for g, v in zip(sigs, vs)}


def show(v, w):
    return ''.join('-' if v[2] >> i & 1 else 'x' if v[1] >> i & 1 else str(v[0] >> i & 1) for i in range(w - 1, -1, -1))


def analyse(d, noreorder=False):
    an = vp.analyze(d.text(), d.name, noreorder)
    return sim.Flow(an.getTerms(), an.getBinddict())


def judge(d, key, st, every=False, top='m', noreorder=False):
    """every value of every signal of the design, for every valuation of its inputs"""
    if not key.startswith('mixed:') and any(i[0] == 'always' and sim.mixes(i[2]) for i in d.items):
        st.count('outside')
        return True
    st.count('evaluations')
    r = core.attempt(lambda: analyse(d, noreorder))
    if r[0] == 'exc':
        st.fail(key, 'analysis raised %s: %s' % (r[1], r[2]), {'text': d.text()})
        return False
    flow = r[1]
    targets = [g for g in d.sigs if g.kind not in ('input', 'integer')]
    for g in targets:
        if top + '.' + g.name not in flow.by:
            st.fail(key, 'signal %s is missing in the terms' % g.name, {'text': d.text()})
            return False
    m = sim.Machine(d)
    u = used(d)
    ins = ins_of(d)
    free = [g for g in ins if g.name in u]
    fixed = {g.name: 0 for g in ins if g.name not in u}
    for env in valuations(free, every):
        st.count('transitions')
        full = dict(fixed)
        full.update(env)
        try:
            ref = m.settle(full)
        except dfv.Skip:
            continue
        env1 = {'%s.%s' % (top, n): v for n, v in full.items()}
        vals = sim.Values(flow, env1)
        for g in targets:
            v0s = ref[g.name] if g.dims else [ref[g.name]]
            if all((v[1] | v[2]) == dfv.mask(g.width) and not v[2] for v in v0s):
                continue
            try:
                v1 = flow.value(flow.by[top + '.' + g.name], vals)
            except (dfv.Skip, dfv.Bad) as ex:
                v1 = ex
            v1s = v1 if isinstance(v1, list) else [v1]
            st.count('judged')
            st.count('traces')
            ok = not isinstance(v1, Exception) and len(v0s) == len(v1s) and all(dfv.same(p + (g.width,), q + (g.width,)) for p, q in zip(v0s, v1s))
            if not ok:
                got = 'no value (%s)' % v1 if isinstance(v1, Exception) else ' '.join(show(q, g.width) for q in v1s)
                st.fail(key, 'with %s, %s is %s and its dataflow gives %s (- keeps its value)' % (env, g.name, ' '.join(show(p, g.width) for p in v0s), got),
                        {'text': d.text(), 'dataflow': [q.tostr() for q in flow.bindof.get(top + '.' + g.name, ())]})
                return False
    st.state(key)
    st.outcome(tuple(q.tostr() for g in targets for q in flow.bindof.get(top + '.' + g.name, ())))
    return True


# -- families -----------------------------------------------------------------------------
def exprs(thorough):
    """expressions, as (text key, expression)"""
    atoms = [a, b, c, s, K("2'd1"), K("1'b1"), K("2'b10"), IX('a', 0), IX('b', c), PS('e', 2, 1), CAT(c, s), ('ip', 'e', c, 2), K('1')]
    core_ = [a, b, c, K("2'd1")]
    for p in atoms + [e, ('im', 'e', K('3'), 2), IX('e', a), PS('e', 3, 3), ('im', 'e', ('b', 'Plus', c, K('1')), 2), K("4'hA"), K("'d3"), K("3'o5"), K("2'sd1")]:
        yield p
        for m in sim.UMARK:
            yield U(m, p)
        for n in (1, 2, 3):
            yield REP(n, p)
        if p in (a, c, IX('b', c), K("3'o5")):
            yield ('sys', 'signed', p)
        yield ('sys', 'unsigned', p)
    for p in (a, c, K("1'b1"), K("2'd1"), IX('e', 2), CAT(c, s)):
        for n in (4, 5, 8, 15, 16, 17, 31, 32, 33, 40, 64, 65):
            yield REP(n, p)
    for p, q in itertools.product(atoms, repeat=2):
        for m in sim.BYMARK:
            yield B(p, m, q)
        yield CAT(p, q)
    conds = [T(p, q, r) for p in (c, a, B(a, '==', b), K("1'b0"), U('!', c)) for q in core_[:2] for r in (b, K("2'd1"))]
    for t in conds:
        yield t
        for p in core_:
            for m in sim.BYMARK:
                yield B(t, m, p)
                yield B(p, m, t)
            yield CAT(t, p)
            yield CAT(p, t, p)
        for m in sim.UMARK:
            yield U(m, t)
        yield T(t, a, b)
        yield T(s, t, b)
        yield T(s, a, t)
        yield IX('e', t)
        yield REP(2, t)
        yield ('ip', 'e', T(c, K('1'), K('0')), 2)
    inner = [B(a, m, b) for m in ('+', '-', '&', '|', '^', '~^', '==', '<', '<<', '>>', '&&')] + [U(m, a) for m in ('~', '!', '&', '|', '^')] + conds[:3]
    outer = list(sim.BYMARK)
    for p in inner:
        for m in outer:
            for q in (b, c, K("2'd2")):
                yield B(p, m, q)
                yield B(q, m, p)
        for m in sim.UMARK:
            yield U(m, p)
        yield CAT(p, c)
        yield CAT(CAT(s, p), c)
        yield T(p, a, b)
        yield T(c, p, b)
        if thorough:
            for q in inner:
                for m in outer:
                    yield B(p, m, q)
                yield CAT(p, q)
                yield T(p, q, a)
                yield T(c, p, q)
    for p, q in itertools.product(conds[:6], repeat=2):
        yield B(p, '+', q)
        yield B(p, '&', q)
        yield CAT(p, q)
        yield T(p, q, a)
        yield T(c, p, q)
        yield T(B(p, '==', q), a, b)


def unsized(ex):
    if ex[0] == 'c':
        return not ex[1].split("'")[0] or "'" not in ex[1]
    if ex[0] in ('u', 'b', '?'):
        return any(unsized(x) for x in ex[1:] if isinstance(x, tuple))
    return False


def legal(ex):
    """no unsized number stands in a concatenation"""
    if ex[0] in ('cat', 'rep') and any(bare(x) for x in ex[1:] if isinstance(x, tuple)):
        return False
    return all(legal(x) for x in ex[1:] if isinstance(x, tuple))


def bare(ex):
    return ex[0] == 'c' and unsized(ex)


def pack_exprs(thorough, i, k, st, n=12, simulate=False):
    """groups of wires, one expression each (and the same value in a wider wire)"""
    ev = dfv.Eval({q.name: q.shape() for q in INS + [E4]}, True)
    mach = sim.Machine(Design(INS + [E4], []))
    group, all_ = [], []
    for j, ex in enumerate(exprs(thorough)):
        if j // n % k != i or not legal(ex):
            continue
        try:
            w, s = mach.ev.shape(mach.build(ex, None, []))
        except dfv.Skip:
            continue
        group.append((ex, w, s))
        if len(group) == n:
            all_.append(group)
            group = []
    if group:
        all_.append(group)
    if simulate:
        return conform((('exprs', expr_make(g)) for g in all_[::3]), st)
    for g in all_:
        expr_design(g, st)


def expr_make(gr):
    sigs = INS + [E4]
    items = []
    for j, (ex, w, s) in enumerate(gr):
        for k, ww in (('w', w), ('v', w + 1)):
            sigs = sigs + [Sig('%s%d' % (k, j), 'wire', ww - 1, 0) if ww > 1 else Sig('%s%d' % (k, j), 'wire')]
            items.append(('assign', V('%s%d' % (k, j)), ex))
    return Design(sigs, items)


def expr_design(group, st):
    trial = core.Stats()
    d = expr_make(group)
    if judge(d, 'exprs %s ..' % sim.expr_text(group[0][0]), trial):
        st.merge(trial)
        return
    for g in group:
        judge(expr_make([g]), 'assign %s' % sim.expr_text(g[0]), st)


def drivers(thorough):
    """several drivers of parts, concatenated targets, declared directions, chains"""
    W = lambda n, m=None, l=None: Sig(n, 'wire', m, l)
    four = [K("2'd1"), a, b]
    rng = [(3, 0), (0, 3), (7, 4), (4, 7), (4, 1)]
    for m, l in rng:
        d_ = 1 if m > l else -1
        hi, lo = (m, m - d_), (l + d_, l)
        for p, q in itertools.product(four, repeat=2):
            yield 'halves', Design(INS + [W('x', m, l)], [('assign', PS('x', *hi), p), ('assign', PS('x', *lo), q)])
            yield 'halves', Design(INS + [W('x', m, l)], [('assign', PS('x', *lo), p), ('assign', PS('x', *hi), q)])
        yield 'bits', Design(INS + [W('x', m, l)], [('assign', IX('x', k), [c, s, IX('a', 0), IX('b', 1)][n]) for n, k in enumerate(range(m, l - d_, -d_))])
        yield 'bits', Design(INS + [W('x', m, l)], [('assign', IX('x', k), [c, s, IX('a', 0), IX('b', 1)][n]) for n, k in enumerate(range(l, m + d_, d_))])
        yield 'select', Design(INS + [W('x', m, l), W('y', 1, 0), W('z')], [('assign', x, CAT(a, b)), ('assign', y, PS('x', m - d_, l + d_)), ('assign', z, IX('x', l))])
        yield 'select', Design(INS + [W('x', m, l), W('z')], [('assign', x, CAT(a, b)), ('assign', z, IX('x', B(a, '+', K(str(min(m, l))))))])
        yield 'select', Design(INS + [W('y', 1, 0), Sig('g', 'input', m, l)], [('assign', y, PS('g', m, m - d_))])
        yield 'select', Design(INS + [W('y', 1, 0), Sig('g', 'input', m, l)], [('assign', y, CAT(IX('g', l), IX('g', m)))])
        yield 'some', Design(INS + [W('x', m, l)], [('assign', PS('x', *hi), a)])
        yield 'some', Design(INS + [W('x', m, l)], [('assign', IX('x', l), c), ('assign', PS('x', *hi), b)])
    tg = [[V('x'), V('y')], [V('x'), V('z')], [V('z'), V('x')], [V('x'), V('z'), V('y')], [PS('p', 3, 2), V('x')], [V('z'), PS('p', 1, 0)], [IX('p', 2), IX('p', 0), V('z')], [IX('p', 0), IX('p', 3), V('x')], [PS('q', 0, 1), V('z')]]
    src = [e, CAT(a, b), CAT(a, c, b), B(e, '+', K("4'd1")), U('~', e), T(c, e, CAT(b, a)), T(c, CAT(a, s, b), CAT(b, c, a)), CAT(T(c, a, b), b)]
    for t in tg:
        for q in src:
            sg = INS + [E4, W('x', 1, 0), W('y', 1, 0), W('z'), W('p', 3, 0), W('q', 0, 3)]
            yield 'concat target', Design(sg, [('assign', CAT(*t), q)])
    for m, l in rng[1:]:        # sources whose least significant bit has another index than 0
        at = lambda n, k: (m - k if m > l else m + k, m - k - n + 1 if m > l else m + k + n - 1)
        for t in tg[:3] + tg[5:7] + tg[8:]:     # (a source narrower than its target: above)
            sg = INS + [Sig('g', 'input', m, l), W('h', m, l), W('x', 1, 0), W('y', 1, 0), W('z'), W('p', 3, 0), W('q', 0, 3)]
            for q in (V('g'), V('h'), T(c, V('g'), V('h')), T(c, V('g'), T(s, CAT(a, b), V('h'))), PS('g', *at(4, 0)), B(V('g'), '+', V('h')), CAT(PS('g', *at(2, 2)), PS('h', *at(2, 1)))):
                yield 'concat target', Design(sg, [('assign', CAT(*t), q), ('assign', V('h'), CAT(b, U('~', a)))])
            sr = [Sig(w.name, 'reg', w.msb, w.lsb) if w.kind == 'wire' and w.name != 'h' else w for w in sg] + [Sig('r', 'reg', m, l, (0, 1))]
            fin = [('=', V(n), K('0')) for n in 'xyz'] + [('=', V('p'), K("4'd0")), ('=', V('q'), K("4'd0"))]
            if t[0][0] == 'id' and t[-1][0] == 'id':
                for bk in ([('=', CAT(*t), V('g'))], [('if', c, [('=', CAT(*t), V('g'))], [('=', CAT(*t), V('h'))])], [('=', CAT(*t), T(s, V('g'), V('h')))],
                           [('=', IX('r', 0), V('g')), ('=', IX('r', 1), V('h')), ('=', CAT(*t), IX('r', 1))], [('=', IX('r', 0), V('g')), ('=', IX('r', 1), V('h')), ('=', CAT(*t), IX('r', c))]):
                    yield 'concat target', Design(sr, [('always', '*', fin + bk), ('assign', V('h'), CAT(b, U('~', a)))])
    chain = [('assign', x, B(a, '&', b)), ('assign', y, B(x, '|', CAT(c, s))), ('assign', z, B(y, '==', x))]
    for p in itertools.permutations(chain):
        yield 'chain', Design(INS + [W('x', 1, 0), W('y', 1, 0), W('z')], p)


def Y(n, m=None, l=None):
    return Sig(n, 'reg', m, l)


REGS = [Y('x', 1, 0), Y('y', 1, 0)]


def simple():
    return [('=', x, a), ('=', y, b), ('=', y, x), ('=', x, U('~', y)), ('=', y, B(x, '&', b)), ('=', x, B(B(x, '^', a), '|', y)), ('=', IX('y', 0), c), ('=', IX('x', 1), s),
            ('=', CAT(x, y), CAT(b, a)), ('=', CAT(IX('x', 0), y), CAT(a, c)), ('=', PS('y', 1, 0), a)]


def compound(ps, qs):
    for p in ps:
        yield ('if', c, [p], None)
        yield ('if', IX('x', 0), [p], None)
        yield ('if', B(a, '==', b), [('if', s, [p], None)], None)
    for p, q in itertools.product(ps, qs):
        yield ('if', c, [p], [q])
        yield ('if', B(y, '==', K("2'd1")), [p], [q])
        yield ('if', s, [p, q], None)
        yield ('if', c, [('if', s, [p], [q])], None)
        yield ('if', c, [p], [('if', s, [q], None)])
        yield ('case', a, [([K("2'd0")], [p]), ([K("2'd1"), K("2'd3")], [q])])
        yield ('case', a, [([K("2'd2")], [p]), (None, [q])])
        yield ('case', CAT(c, s), [([a], [p]), ([b], [q]), (None, [('=', x, K("2'd3"))])])


def blocks(thorough):
    P = simple()
    small = P[:4] + [P[6]]
    Q = list(compound(small, small))
    Qall = list(compound(P, P))
    for n in (1, 2):
        for t in itertools.product(P, repeat=n):
            yield list(t)
    for t in itertools.product(P[:8] if not thorough else P, repeat=3):
        yield list(t)
    for q in Qall:
        yield [q]
    for q in Q:
        for p in P[:8] if thorough else small:
            yield [p, q]
            yield [q, p]
    if thorough:
        for q in Q:
            for p in small:
                for r in small:
                    yield [p, q, r]
        for q in Q:
            for r in Q[::2]:
                yield [q, r]
    else:
        for q in Q[::3]:
            for p in small[:3]:
                for r in small[:3]:
                    yield [p, q, r]
        for q in Q[::5]:
            for r in Q[::5]:
                yield [q, r]


def initialised(thorough):
    """fully assigned blocks: defaults first, then conditions"""
    P = simple()
    small = P[:5] + [P[6]]
    Q = list(compound(small, small))
    init = [('=', x, b), ('=', y, K("2'd2"))]
    for q in Q:
        yield init + [q]
    for q in Q[::1 if thorough else 4]:
        for r in Q[::1 if thorough else 7]:
            yield init + [q, r]


def wildcard():
    for kind in ('casex', 'casez', 'case'):
        for pats in ((("2'b0?",), ("2'b?1",)), (("2'b1?", "2'b?1"), ("2'b00",)), (("2'b00",), ("2'b01", "2'b10"))):
            for default in (True, False):
                arms = [([K(t) for t in g], [('=', x, K("2'd%d" % n))]) for n, g in enumerate(pats)]
                if kind == 'case' and '?' in pats[0][0]:
                    continue
                if default:
                    arms.append((None, [('=', x, b)]))
                yield [('=', y, a), (kind, a, arms)]
                if default:
                    yield [('=', y, a), (kind, a, [arms[-1]] + arms[:-1])]
                    yield [('=', y, a), (kind, a, arms[:1] + [arms[-1]] + arms[1:-1])]
    yield [('=', y, a), ('casex', e, [([K("4'b1xx0")], [('=', x, a)]), ([K("4'bx1x1"), K("4'b0x0x")], [('=', x, b)]), (None, [('=', x, K("2'd3"))])])]
    yield [('=', y, a), ('casez', e, [([K("4'b1zz0")], [('=', x, a)]), ([K("4'b?1?1"), K("4'b0z0?")], [('=', x, b)]), (None, [('=', x, K("2'd3"))])])]
    yield [('=', y, a), ('case', K("1'b1"), [([c], [('=', x, a)]), ([s], [('=', x, b)]), (None, [('=', x, K("2'd0"))])])]
    yield [('=', y, a), ('case', a, [(None, [('=', x, b)])])]
    yield [('=', y, a), ('case', a, [([K("2'd0")], [('case', b, [([K("2'd1")], [('=', x, a)]), (None, [('=', x, b)])])]), (None, [('=', x, K("2'd1"))])])]
    yield [('=', y, a), ('=', x, b), ('case', a, [([K("2'd0")], []), (None, [('=', x, K("2'd1"))])])]
    yield [('=', y, a), ('if1', c, ('=', x, a), ('if1', s, ('=', x, b), ('=', x, K("2'd1"))))]
    yield [('=', y, a), ('if1', c, ('if1', s, ('=', x, b), ('=', x, K("2'd1"))), None)]
    yield [('=', y, a), ('=', x, a), ('if1', c, ('nop',), ('=', x, b))]


def loops(thorough):
    """(locals, statements) with loops over integers"""
    I_ = [Sig('i', 'integer')]
    i = V('i')
    up = lambda n, body, st0=0, d=1: ('for', 'i', K(str(st0)), B(i, '<', K(str(n))), B(i, '+', K(str(d))), body)
    down = lambda n, body: ('for', 'i', K(str(n - 1)), B(i, '>=', K('0')), B(i, '-', K('1')), body)
    x4 = [Y('x', 3, 0), Y('y', 1, 0)]
    bodies = [[('=', IX('x', i), IX('e', i))], [('=', IX('x', i), B(IX('e', i), '^', c))], [('=', IX('x', i), IX('e', B(K('3'), '-', i)))],
              [('if', IX('e', i), [('=', IX('x', i), s)], [('=', IX('x', i), c)])], [('if', c, [('=', IX('x', i), s)], None)],
              [('case', a, [([K("2'd1")], [('=', IX('x', i), s)]), (None, [('=', IX('x', i), IX('e', i))])])],
              [('=', IX('x', i), B(a, '==', i))]]
    for q in bodies:
        yield x4, I_, [('=', y, a), up(4, q)]
        yield x4, I_, [('=', y, a), down(4, q)]
        yield x4, I_, [('=', y, a), up(4, q, 1)]
        yield x4, I_, [('=', y, a), up(4, q, 0, 2)]
        yield x4, I_, [('=', y, a), up(0, q)]
        yield x4, I_, [('=', y, a), ('=', V('i'), K('0')), ('while', B(i, '<', K('3')), q + [('=', V('i'), B(i, '+', K('1')))])]
        yield x4, I_, [('=', x, K("4'd0")), ('=', y, a), up(4, q)]
    acc = [[('=', y, B(y, '^', b))], [('if', IX('e', i), [('=', y, B(y, '|', b))], None)], [('if', IX('e', i), [('=', y, b)], [('=', y, U('~', y))])],
           [('=', y, CAT(IX('y', 0), IX('e', i)))], [('=', y, T(IX('e', i), b, y))]]
    for q in acc:
        for n in (1, 2, 3):
            yield x4, I_, [('=', x, e), ('=', y, a), up(n, q)]
            yield x4, I_, [('=', x, e), ('=', y, a), down(n, q)]
    yield x4, I_, [('=', x, K("4'd0")), ('=', y, a), up(2, [('for', 'j', K('0'), B(V('j'), '<', K('2')), B(V('j'), '+', K('1')), [('=', IX('x', B(B(i, '*', K('2')), '+', V('j'))), IX('e', V('j')))])])]


def words():
    small = simple()[:5]
    for q in [[p] for p in simple()] + [[p, q] for p in small for q in small] + [[('if', c, [p], [q])] for p in small for q in small] + [[('if', c, [p], None), q] for p in small for q in small]:
        yield 'always_comb', q
        yield 'always_latch', q


def funcs(thorough):
    """(function definitions, items)"""
    A2 = lambda n: Sig(n, 'input', 1, 0)
    bodies = [
        [('=', V('f'), B(V('p'), '&', V('q')))],
        [('if', IX('p', 0), [('=', V('f'), V('q'))], [('=', V('f'), U('~', V('q')))])],
        [('case', V('p'), [([K("2'd0")], [('=', V('f'), V('q'))]), ([K("2'd1")], [('=', V('f'), K("2'd3"))]), (None, [('=', V('f'), V('p'))])])],
        [('=', V('f'), V('p')), ('if', IX('q', 1), [('=', V('f'), K("2'd1"))], None)],
        [('=', V('f'), B(V('p'), '^', a))],
        [('=', IX('f', 0), IX('p', 1)), ('=', IX('f', 1), IX('q', 0))],
        [('=', V('f'), T(B(V('p'), '==', V('q')), V('p'), K("2'd2")))],
    ]
    loc = [
        [('=', V('t'), B(V('p'), '|', V('q'))), ('=', V('f'), U('~', V('t')))],
        [('=', V('t'), V('p')), ('if', IX('q', 0), [('=', V('t'), V('q'))], None), ('=', V('f'), V('t'))],
    ]
    uses = [
        lambda F: [('assign', x, F(a, b))],
        lambda F: [('assign', x, F(b, a)), ('assign', y, F(a, a))],
        lambda F: [('assign', x, B(F(a, b), '&', F(b, a)))],
        lambda F: [('assign', x, F(F(a, b), b))],
        lambda F: [('assign', x, F(B(a, '^', b), K("2'd1"))), ('assign', y, CAT(IX('x', 0), c))],
        lambda F: [('assign', x, T(c, F(a, b), F(b, K("2'd2"))))],
        lambda F: [('assign', x, CAT(B(F(a, b), '==', b), c))],
        lambda F: [('assign', x, F(T(c, a, b), b))],
    ]
    W = lambda n: Sig(n, 'wire', 1, 0)
    for bodyset, local in ((bodies, []), (loc, [Sig('t', 'reg', 1, 0)])):
        for bd in bodyset:
            f = Func('f', (1, 0), [A2('p'), A2('q')], bd, local)
            F = lambda *g: CALL('f', *g)
            for u in uses:
                yield 'wire', [f], [W('x'), W('y')], u(F)
            yield 'always', [f], REGS, [('always', '*', [('=', x, F(a, b)), ('=', y, b)])]
            yield 'always', [f], REGS, [('always', '*', [('=', y, b), ('=', x, F(a, y))])]
            yield 'always', [f], REGS, [('always', '*', [('=', y, b), ('if', c, [('=', y, F(a, y))], None), ('=', x, F(y, b))])]
            yield 'always', [f], REGS, [('always', '*', [('=', y, b), ('if', B(F(a, b), '==', b), [('=', x, a)], [('=', x, b)])])]
            yield 'always', [f], REGS, [('always', '*', [('=', y, b), ('case', F(a, b), [([K("2'd0")], [('=', x, a)]), (None, [('=', x, b)])])])]
    g = Func('g', None, [A2('p')], [('=', V('g'), U('^', V('p')))])
    f = Func('f', (1, 0), [A2('p'), A2('q')], [('=', V('f'), CAT(CALL('g', V('p')), CALL('g', V('q'))))])
    yield 'nested', [g, f], [W('x'), W('y')], [('assign', x, CALL('f', a, b)), ('assign', y, CAT(CALL('g', a), c))]
    yield 'nested', [f, g], [W('x'), W('y')], [('assign', x, CALL('f', b, a)), ('assign', y, CAT(CALL('g', CALL('f', a, b)), c))]
    h = Func('f', (1, 0), [A2('p')], [('=', V('f'), K("2'd0")), ('for', 'k', K('0'), B(V('k'), '<', K('2')), B(V('k'), '+', K('1')), [('=', V('f'), B(V('f'), '^', V('p')))])], [Sig('k', 'integer')])
    yield 'loop', [h], [W('x')], [('assign', x, CALL('f', a))]
    h = Func('f', (1, 0), [A2('p')], [('for', 'k', K('0'), B(V('k'), '<', K('2')), B(V('k'), '+', K('1')), [('=', IX('f', V('k')), IX('p', B(K('1'), '-', V('k'))))])], [Sig('k', 'integer')])
    yield 'loop', [h], [W('x')], [('assign', x, CALL('f', a))]


def several(thorough):
    """several items: always blocks with sensitivity lists, wires, parts of one register in two blocks"""
    W = lambda n: Sig(n, 'wire', 1, 0)
    for sens in ('*', '(*)', '(a or b or c or s)', '(a, b, c, s)'):
        yield sens, REGS, [('always', sens, [('=', x, a), ('if', c, [('=', x, b)], None)]), ('always', sens, [('=', y, B(a, '|', b))])]
    yield 'two blocks', REGS + [W('z')], [('always', '*', [('=', x, a), ('if', c, [('=', x, b)], None)]), ('always', '*', [('if', s, [('=', y, x)], [('=', y, V('z'))])]), ('assign', V('z'), U('~', x))]
    yield 'bits in two blocks', REGS, [('always', '*', [('=', IX('x', 0), c), ('=', y, a)]), ('always', '*', [('=', IX('x', 1), s)])]
    yield 'bits', [Sig('x', 'output reg', 1, 0), Y('y', 1, 0)], [('always', '*', [('if', c, [('=', IX('x', 0), s)], [('=', IX('x', 0), IX('a', 0))]), ('=', y, a)]), ('always', '*', [('=', IX('x', 1), s)])]
    yield 'named', REGS, [('always', '*', [('block', 'blk', [Sig('t', 'reg', 1, 0)], [('=', V('t'), B(a, '&', b)), ('=', x, V('t')), ('=', y, U('~', V('t')))])])]
    yield 'named', REGS, [('always', '*', [('block', 'blk', [Sig('t', 'reg', 1, 0)], [('=', V('t'), a), ('if', c, [('=', V('t'), b)], None), ('=', x, V('t'))]), ('=', y, b)])]
    yield 'inner block', REGS, [('always', '*', [('=', x, a), ('block', None, [], [('=', x, B(x, '^', b)), ('=', y, x)]), ('=', x, B(x, '|', y))])]
    yield 'nonblocking', REGS, [('always', '*', [('<=', x, a), ('if', c, [('<=', x, b)], [('<=', y, a)])])]
    mem = [Sig('r', 'reg', 1, 0, (0, 3)), Y('y', 1, 0)]
    yield 'memory', mem, [('always', '*', [('=', IX('r', K(str(k))), [a, b, K("2'd1"), CAT(c, s)][k]) for k in range(4)])]


def longs(th):
    """lists, nestings and chains past the small bound"""
    ab, up = CAT(a, b), lambda v: B(v, '+', K("2'd1"))
    alt = [B(x, '+', a), B(x, '^', b), U('~', x), CAT(IX('x', 0), c), T(s, x, b), B(x, '-', K("2'd1"))]
    blk = lambda bk: ('block', REGS, [('always', '*', bk)])
    pick = lambda k: [a, b, U('~', a), B(a, '+', b), K("2'd2"), CAT(c, s)][k % 6]
    for n in (9, 10, 11, 12, 16, 17, 33) if th else (10, 12, 16):
        R = range(n)
        yield blk([('=', x, a)] + [('=', x, alt[k % 6]) for k in R] + [('=', y, x)])
        yield blk([('=', x, a), ('=', y, b)] + [('=', (x, y)[k % 2], B((y, x)[k % 2], '+', (x, y)[k % 2])) for k in R])
        yield blk([('=', x, a), ('=', y, b)] + [('if', IX(('a', 'b')[k % 2], k // 2 % 2), [('=', (x, y)[k % 2], alt[k % 6])], None) for k in R])
        yield blk([('=', x, a), ('=', y, b)] + [('if', IX('ab'[k % 2], k // 2 % 2), [('=', x, up(y))], [('=', y, up(x))]) for k in R])
        yield blk([('=', x, a), ('=', y, b)] + [('=', IX('xy'[k % 2], k // 2 % 2), IX('yx'[k % 2], k // 3 % 2)) for k in R])
        for cond in (lambda k: B(ab, '==', K("4'd%d" % (k % 16))), lambda k: B(ab, '<', K("5'd%d" % (2 * k % 17))), lambda k: IX('ab'[k % 2], k // 2 % 2)):
            down, nest = [('=', x, a), ('=', y, b)], [('=', x, a), ('=', y, b)]
            for k in reversed(R):
                down = [('if', cond(k), [('=', x, pick(k)), ('=', y, pick(k + 1))], down)]
                nest = [('if', U('!', cond(k)), nest, [('=', x, pick(k + 2)), ('=', y, pick(k))])]
            yield blk(down)
            yield blk(nest)
            yield blk([('=', x, pick(1)), ('=', y, pick(2))] + [('if', cond(k), [('=', x, pick(k))], None) for k in R])
            ch = pick(n)
            ct = pick(n)
            for k in reversed(R):
                ch, ct = T(cond(k), pick(k), ch), T(U('!', cond(k)), ct, pick(k))
            yield 'wires', [Sig('x', 'wire', 1, 0), Sig('y', 'wire', 1, 0)], [('assign', x, ch), ('assign', y, ct)]
        m = min(n, 16)
        items = [([K("4'd%d" % k)], [('=', x, pick(k)), ('=', y, pick(k * 2 + 1))]) for k in range(m)]
        yield blk([('=', x, a), ('=', y, b), ('case', ab, items)])
        yield blk([('=', x, a), ('=', y, b), ('case', ab, items[::-1] + [(None, [('=', x, K("2'd1"))])])])
        yield blk([('=', x, a), ('=', y, b), ('casez', ab, items[:9] + [([K("4'b1???")], [('=', x, K("2'd1"))])])])
        yield blk([('=', x, a), ('=', y, b), ('case', ab, [([K("4'd%d" % k) for k in range(m)][:m - 1], [('=', x, b)]), (None, [('=', y, a)])])])
        yield blk([('=', x, a), ('=', y, b), ('case', ab, [([K("4'd%d" % (k * 7 % 16)) for k in range(m)][:m - 2], [('=', x, b)]), ([K("4'd%d" % (k * 7 % 16)) for k in range(m - 2, m)], [('=', y, a)])])])
        # many variables, many blocks, many wires
        vs = ['v%d' % k for k in R]
        yield 'wires', [Sig(w, 'wire', 1, 0) for w in vs], [('assign', V(vs[0]), a)] + [('assign', V(vs[k]), B(V(vs[k - 1]), '+-^&|'[k % 5], (b, CAT(c, s))[k % 2])) for k in R[1:]]
        yield 'wires', [Sig(w, 'wire', 1, 0) for w in vs], [('assign', V(vs[k]), B(V(vs[k - 1]), '^', pick(k))) for k in reversed(R[1:])] + [('assign', V(vs[0]), a)]
        yield 'blocks', [Y(w, 1, 0) for w in vs], [('always', '*', [('=', V(vs[k]), pick(k)), ('if', c, [('=', V(vs[k]), V(vs[k - 1]) if k else b)], None)]) for k in R]
        yield 'block', [Y(w, 1, 0) for w in vs], [('always', '*', [('=', V(vs[k]), B(V(vs[k - 1]), '+', b) if k else a) for k in R])]
        yield 'blocks', [Y(w, 1, 0) for w in vs] + REGS, [('always', '*', [('=', x, pick(k)), ('=', V(vs[k]), up(x))]) for k in R[:1]] + [('always', '*', [('=', V(vs[k]), up(V(vs[k - 1])))]) for k in R[1:]]
        # wide vectors
        bits = [c, s, IX('a', 0), IX('a', 1), IX('b', 0), IX('b', 1), B(c, '^', s), U('!', IX('a', 0))]
        bit = lambda k: bits[(k * 5 + k // 8) % 8]
        for hi, lo in ((n - 1, 0), (0, n - 1), (n + 2, 3)):
            ix = range(min(hi, lo), max(hi, lo) + 1)
            g = [Sig('g', 'wire', hi, lo), Sig('z', 'wire'), Sig('x', 'wire', 1, 0)]
            cut = (lambda p, q: PS('g', p, q)) if hi > lo else (lambda p, q: PS('g', q, p))
            tail = [('assign', V('z'), IX('g', B(ab, '%', K("5'd%d" % n)) if lo == 0 else B(K('%d' % min(hi, lo)), '+', B(ab, '&', K("4'd7"))))), ('assign', x, cut(ix[-2], ix[-3]))]
            yield 'wide', g, [('assign', IX('g', k), bit(k)) for k in ix] + tail
            yield 'wide', g, [('assign', IX('g', k), bit(k)) for k in reversed(ix)] + tail
            yield 'wide', g, [('assign', V('g'), CAT(*[bit(k) for k in ix]))] + tail
            yield 'wide', g + [Sig('h', 'wire', hi, lo)], [('assign', V('g'), CAT(*[bit(k) for k in ix])), ('assign', CAT(*[IX('h', k) for k in ix]), V('g'))] + tail
            yield 'wide', g, [('assign', cut(ix[-1], ix[n // 2]), CAT(*[bit(k) for k in ix[n // 2:]])), ('assign', cut(ix[n // 2 - 1], ix[0]), CAT(*[bit(k) for k in ix[:n // 2]]))] + tail
        yield 'memory', [Sig('r', 'reg', 1, 0, (0, n - 1)), Sig('x', 'wire', 1, 0)], [('always', '*', [('=', IX('r', K(str(k))), pick(k)) for k in R]), ('assign', x, IX('r', K(str(n - 1))))]
        for fs in ([Func('f', (1, 0), [Sig('p', 'input', 1, 0)], [('=', V('f'), V('p'))] + [('=', V('f'), B(V('f'), '+', V('p'))) if k % 2 else ('=', V('f'), U('~', V('f'))) for k in R])],
                   [Func('f', (1, 0), [Sig('p%d' % k, 'input', 1, 0) for k in R], [('=', V('f'), B(V('p%d' % (n - 1)), '+', V('p1')))])],
                   [Func('f%d' % k if k else 'f', (1, 0), [Sig('p', 'input', 1, 0)], [('=', V('f%d' % k if k else 'f'), B(CALL('f%d' % (k + 1), V('p')), '+', K("2'd1")) if k < n - 1 else U('~', V('p')))]) for k in R]):
            yield 'function', [Sig('x', 'wire', 1, 0)], [('assign', x, CALL('f', *([pick(k) for k in R] if len(fs[0].args) == n else [a])))], fs
        yield 'function', [Sig(w, 'wire', 1, 0) for w in vs], [('assign', V(w), CALL('f', pick(k))) for k, w in enumerate(vs)], [Func('f', (1, 0), [Sig('p', 'input', 1, 0)], [('if', IX('p', 0), [('=', V('f'), B(V('p'), '+', K("2'd1")))], [('=', V('f'), V('p'))])])]


SIMULATED = {'drivers': 3, 'blocks': 23, 'full': 11, 'cases': 1, 'loops': 1, 'functions': 2, 'words': 40, 'several': 1, 'mixed': 1, 'longs': 2}


def conform(designs, st):
    """the reference interpreter against the simulator"""
    for part in core.chunks(designs, 60):
        jobs, want = [], []
        for j, (key, d) in enumerate(part):
            m = sim.Machine(d)
            u = used(d)
            ins = ins_of(d)
            vecs, refs = [], []
            for env in valuations([g for g in ins if g.name in u]):
                try:
                    ref = m.settle(dict({g.name: 0 for g in ins}, **env))
                except dfv.Skip:
                    continue
                vecs.append(env)
                refs.append(ref)
            obs = [g for g in d.sigs if g.kind not in ('input', 'integer') and not g.dims]
            if not vecs or not vecs[0] or any(sim.outer_reads(f) for f in d.funcs):
                continue        # (the simulator re-evaluates a function for changes of its arguments only)
            e2 = Design(d.sigs, d.items, d.funcs, 'd%d' % j)
            jobs.append((e2.text(), 'd%d' % j, [(g.name, g.width) for g in ins], vecs, [g.name for g in obs], False))
            want.append((key, obs, refs))
        for (key, obs, refs), got, job in zip(want, sim.simulate(jobs), jobs):
            for ref, vals, env in zip(refs, got, job[3]):
                for g, p in zip(obs, vals):
                    st.count('simulator_comparisons')
                    if not sim.agrees(ref[g.name], p, g.width):
                        raise RuntimeError('reference and simulator differ: %s: with %s, %s is %s, simulator %s\n%s' % (key, env, g.name, show(ref[g.name], g.width), p, job[0]))


def mixed():
    """a part and then the whole of a variable, or the reverse and a read: parts and the whole of one variable: known findings"""
    yield [('=', x, a), ('=', IX('x', 1), s), ('=', x, a)]
    yield [('=', x, a), ('=', IX('x', 1), s), ('=', y, x)]
    yield [('=', y, b), ('if', s, [('=', IX('y', 0), c), ('=', y, b)], None)]


def run(ctx):
    th = ctx.thorough
    fam = {
        'drivers': lambda: ((k + ' ' + ' '.join(sim.item_text(i) for i in d.items) + str([(g.name, g.msb, g.lsb) for g in d.sigs if g.kind == 'wire'][:1]), d) for k, d in drivers(th)),
        'blocks': lambda: (('always ' + sim.block_text(bk), Design(INS + REGS, [('always', '*', bk)])) for bk in blocks(th)),
        'full': lambda: (('always ' + sim.block_text(bk), Design(INS + REGS, [('always', '*', bk)])) for bk in initialised(th)),
        'cases': lambda: (('always ' + sim.block_text(bk), Design(INS + [E4] + REGS, [('always', '*', bk)])) for bk in wildcard()),
        'loops': lambda: (('always ' + sim.block_text(bk), Design(INS + [E4] + r + l + [Sig('j', 'integer')], [('always', '*', bk)])) for r, l, bk in loops(th)),
        'functions': lambda: (('function %s ' % k + ' '.join(f.text() for f in fs) + ' ' + ' '.join(sim.item_text(i) for i in items), Design(INS + list(sg), items, fs)) for k, fs, sg, items in funcs(th)),
        'mixed': lambda: (('always ' + sim.block_text(bk), Design(INS + REGS, [('always', '*', bk)])) for bk in mixed()),
        'words': lambda: ((k + ' ' + sim.block_text(bk), Design(INS + REGS, [('always', '*', bk, k)])) for k, bk in words()),
        'longs': lambda: ((r[0] + ' ' + ' '.join(sim.item_text(i) for i in r[2]) + ' ' + ' '.join(f.text() for f in r[3:] and r[3]) + str([(g.name, g.msb, g.lsb) for g in r[1][:1]]), Design(INS + list(r[1]), r[2], *r[3:])) for r in longs(th)),
        'several': lambda: ((k + ' ' + ' '.join(sim.item_text(i) for i in items), Design(INS + list(sg), items)) for k, sg, items in several(th)),
    }
    N = 16 if th else 8

    def work(u, st):
        f, i, k = u
        if f == 'exprs':
            return pack_exprs(th, i, k, st)
        if f == 'simulate exprs':
            return pack_exprs(th, i, k, st, simulate=True)
        if f == 'simulate':
            return conform(((key, d) for j, (key, d) in enumerate(fam[i]()) if j % (k[0] * SIMULATED[i]) == k[1] * SIMULATED[i]), st)
        for j, (key, d) in enumerate(fam[f]()):
            if j % k == i:
                judge(d, f + ': ' + key, st)
                if j // k % 5 == 0:
                    judge(d, f + ': without reordering ' + key, st, noreorder=True)

    with core.quiet():
        ctx.explore([(f, i, N) for f in ['exprs'] + list(fam) for i in range(N)] + [('simulate', f, (6, i)) for f in fam for i in range(6)] + [('simulate exprs', i, N) for i in range(N)], work)
    ctx.stats.count('nontrivial', ctx.stats.n['judged'])
    ctx.stats.sample(Design(INS + REGS, [('always', '*', next(iter(initialised(False))))]).text())
    ctx.rule = ('one state is one design whose dataflow was produced by the real analyser; its transitions are all valuations of its inputs, under each of which '
                'the dataflow of every signal is evaluated and compared with the reference interpreter; distinct_observed_outcomes are different dataflows')
    ctx.bounds = {
        'inputs': 'a, b [1:0], c, s, e [3:0]; all valuations (six values of e)',
        'expressions': 'all operators over 13 atoms, two levels over 4, conditionals in every operand place; each assigned to a wire of its own width and to one a bit wider',
        'drivers': 'halves and bits in both orders for 5 declared ranges, selections, 9 concatenated targets x 8 sources, chains in every order',
        'blocks': 'all sequences of up to %d of 11 assignments; all if / if-else / nested / case statements over pairs of them, before and after assignments, and in pairs' % (3 if th else 3),
        'cases, loops, functions, blocks with names': 'the lists in mc/checks/p15_comb.py',
        'longs': 'sizes 10-16 (thorough 9-33): chains of assignments, branches, conditions, nestings, case lists, wires, blocks, vectors, words, functions',
        'outside': 'blocks that write one variable through overlapping parts in changing order (three of them are judged: known findings)',
        'options': 'reordering on; every fifth design also with it off',
    }
    ctx.assumptions = ['the installed simulator implements Verilog (the reference interpreter is compared with it on a fixed part of the same designs, every run)',
                       'a renamed variable stands for the value of one assignment; an Eq with wildcard digits stands for the match of a casex or casez item',
                       'a bit of a value that is x or depends on a division by zero or an index out of range is not judged']
