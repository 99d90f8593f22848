"""P16: the dataflow of clocked logic gives the next state that the text gives."""
import itertools

from mc import core, dfv, sim
from mc.checks.p15_comb import analyse, show, ins_of, used
from mc.sim import B, CALL, CAT, IX, K, PS, REP, T, U, V, Design, Func, Sig

CLK, RST = Sig('CLK', 'input'), Sig('RST', 'input')
INS = [Sig('a', 'input', 1, 0), Sig('c', 'input'), Sig('s', 'input')]
a, c, s, x, y, z, t, r = (V(n) for n in 'acsxyztr')


def Y(n, m=None, l=None, dims=None):
    return Sig(n, 'reg', m, l, dims)


REGS = [Y('x', 1, 0), Y('y', 1, 0), Y('z'), Y('t', 1, 0)]


def domain(g):
    if g.dims:
        n = abs(g.dims[0] - g.dims[1]) + 1
        if n > 4:
            return [tuple((i * k + k) & ((1 << g.width) - 1) for i in range(n)) for k in range(3)]
        few = [0, 1, 2, 3] if g.width == 2 and n == 2 else [0, 1] if g.width == 1 else [0, 1, (1 << g.width) - 2]
        return list(itertools.product(few, repeat=n))
    return range(1 << g.width) if g.width < 4 else (0, 3, 6, 9, 12, 15)


def clocked_of(d):
    r = set()
    for i in d.items:
        if i[0] == 'always' and 'edge' in i[1]:
            r |= sim.item_uses(i, d)[1]
    return [g for g in d.sigs if g.name in r and g.kind != 'integer']


def spaces(d):
    """the inputs and registers a design uses; all others are 0"""
    u = used(d)
    state = [g for g in d.sigs if g.kind == 'input' and g.name not in ('CLK',)] + clocked_of(d)
    return [g for g in state if g.name in u], {g.name: ([0] * (abs(g.dims[0] - g.dims[1]) + 1) if g.dims else 0) for g in state if g.name not in u}


def events(d):
    """name -> (clock, edge, bit, reset, edge, bit) of the always block that writes it"""
    r = {}
    for i in d.items:
        if i[0] == 'always' and 'edge' in i[1]:
            ev = [None] * 6
            for e in i[1].strip('() ').replace(',', ' or ').split(' or '):
                edge, n = e.split()
                bit = 0
                if '[' in n:
                    n, bit = n[:-1].split('[')
                    bit = int(bit)
                k = 0 if any(w in n.lower() for w in ('clk', 'clock')) else 3
                ev[k:k + 3] = [n, edge, bit]
            for n in sim.item_uses(i, d)[1]:
                r[n] = tuple(ev)
    return r


def judge(d, key, st, top='m', noreorder=False):
    if any(i[0] == 'always' and sim.mixes(i[2]) for i in d.items):
        st.count('outside')
        return True
    st.count('evaluations')
    q = core.attempt(lambda: analyse(d, noreorder))
    if q[0] == 'exc':
        st.fail(key, 'analysis raised %s: %s' % (q[1], q[2]), {'text': d.text()})
        return False
    flow = q[1]
    targets = [g for g in d.sigs if g.kind not in ('input', 'integer')]
    for g in targets:
        if top + '.' + g.name not in flow.by:
            st.fail(key, 'signal %s is missing in the terms' % g.name, {'text': d.text()})
            return False
    ev = events(d)
    for g in targets:
        for b in flow.bindof.get(top + '.' + g.name, ()):
            st.count('bindings')
            got = (b.getClockName(), b.getClockEdge(), b.getClockBit(), b.getResetName(), b.getResetEdge(), b.getResetBit(), b.isClockEdge(), b.isCombination())
            w = ev.get(g.name)
            if w is None:
                ok = not got[6] and got[7] and not got[0] and not got[3]
            else:
                full = lambda n: None if n is None else '%s.%s' % (top, n)
                ok = (str(got[0]), got[1], got[2]) == (full(w[0]), w[1], w[2]) and got[6] and not got[7]
                if w[3] is None:
                    ok = ok and not got[3] and not got[4]
                else:
                    ok = ok and (str(got[3]), got[4], got[5]) == (full(w[3]), w[4], w[5])
                ok = ok and (b.alwaysinfo.isResetEdge() if b.alwaysinfo is not None else False) == (w[3] is not None)
            if not ok:
                st.fail(key, 'the clock and reset of %s are recorded as %s, the text says %s' % (g.name, [str(p) for p in got], w), {'text': d.text()})
                return False
    m = sim.Machine(d)
    free, fixed = spaces(d)
    regs = {g.name for g in clocked_of(d)}
    for vs in itertools.product(*[domain(g) for g in free]):
        st.count('transitions')
        full = dict(fixed)
        full.update((g.name, v) for g, v in zip(free, vs))
        full['CLK'] = 1
        try:
            ref = m.settle(full)
            ref.update(m.step(full))
        except dfv.Skip:
            st.count('unjudged valuations')
            continue
        env1 = {'%s.%s' % (top, n): tuple(v) if isinstance(v, (list, tuple)) else v for n, v in full.items()}
        vals = sim.Values(flow, env1)
        for g in targets:
            v0s = ref[g.name] if g.dims else [ref[g.name]]
            if all((v[1] | v[2]) == dfv.mask(g.width) and not v[2] for v in v0s):
                continue
            try:
                v1 = flow.value(flow.by[top + '.' + g.name], vals)
            except (dfv.Skip, dfv.Bad) as ex:
                v1 = ex
            v1s = v1 if isinstance(v1, list) else [v1]
            if g.name in regs and not isinstance(v1, Exception):
                now = full[g.name] if g.dims else [full[g.name]]
                v1s = [((p[0] & ~p[2]) | (o & p[2]), p[1] & ~p[2], 0) for p, o in zip(v1s, now)]
            st.count('judged')
            st.count('traces')
            ok = not isinstance(v1, Exception) and len(v0s) == len(v1s) and all(dfv.same(tuple(p[:3]) + (g.width,), tuple(q[:3]) + (g.width,)) for p, q in zip(v0s, v1s))
            if not ok:
                got = 'no value (%s)' % v1 if isinstance(v1, Exception) else ' '.join(show(q, g.width) for q in v1s)
                st.fail(key, 'with %s, the next %s is %s and its dataflow gives %s' % ({g.name: v for g, v in zip(free, vs)}, g.name, ' '.join(show(p, g.width) for p in v0s), got),
                        {'text': d.text(), 'dataflow': [q.tostr() for q in flow.bindof.get(top + '.' + g.name, ())]})
                return False
    st.state(key)
    st.outcome(tuple(q.tostr() for g in targets for q in flow.bindof.get(top + '.' + g.name, ())))
    return True


# -- families -----------------------------------------------------------------------------
def N(l, e):
    return ('<=', l, e)


def P(l, e):
    return ('=', l, e)


def simple():
    return [N(x, a), N(y, x), N(x, B(x, '+', K("2'd1"))), N(y, B(y, '^', a)), N(x, y), N(z, IX('x', 0)), N(IX('x', 1), s), N(PS('y', 0, 0), c),
            N(CAT(x, y), CAT(a, c, s)), N(CAT(IX('y', 0), x), CAT(x, z)), N(z, B(B(x, '==', a), '|', z)), N(y, T(c, x, y)), N(IX('x', 0), U('~', IX('x', 0))),
            P(t, B(x, '^', a)), N(y, t), P(t, K("2'd2")), N(x, B(t, '+', t)), P(t, B(t, '&', y))]


def compound(ps, qs):
    for p in ps:
        yield ('if', c, [p], None)
        yield ('if', IX('x', 0), [p], None)
        yield ('if', c, [('if', B(a, '==', y), [p], None)], None)
        yield ('case', x, [([K("2'd1")], [p])])
    for p, q in itertools.product(ps, qs):
        yield ('if', c, [p], [q])
        yield ('if', B(x, '==', K("2'd1")), [p], [q])
        yield ('if', s, [p, q], None)
        yield ('if', c, [('if', s, [p], [q])], None)
        yield ('if', c, [p], [('if', B(y, '>', a), [q], None)])
        yield ('case', a, [([K("2'd0")], [p]), ([K("2'd1"), K("2'd3")], [q])])
        yield ('case', y, [([K("2'd2")], [p]), (None, [q])])


def blocks(th):
    S = simple()
    small = [S[i] for i in (0, 2, 3, 6, 8, 13, 16)]
    for n in (1, 2):
        for u in itertools.product(S, repeat=n):
            yield list(u)
    for u in itertools.product([S[i] for i in (0, 1, 2, 4, 13, 14, 17)] if not th else S, repeat=3):
        yield list(u)
    for q in compound(S, S if th else small):
        yield [q]
    Q = list(compound(small, small))
    for i, q in enumerate(Q):
        for j, p in enumerate(small):
            if th or (i + j) % 4 == 0:
                yield [p, q]
            if th or (i + j) % 4 == 1:
                yield [q, p]
    for i, q in enumerate(Q):
        for j, u in enumerate(Q):
            if (i * 7 + j) % (9 if th else 61) == 0:
                yield [q, u]


SENS = ['(posedge CLK)', '(negedge CLK)', '(posedge CLK or posedge RST)', '(posedge CLK or negedge RST)', '(negedge RST or posedge CLK)', '(negedge CLK, posedge RST)', '(posedge CLK, negedge RST)', '(negedge CLK or negedge RST)',
        '(posedge sys_clk)', '(posedge clock2 or negedge rst_n)', '(posedge Reset or posedge main_CLOCK)', '(posedge clks[1])', '(posedge clks[1] or negedge resets[2])', '(negedge clks[0])', '(posedge CLK or posedge resets[0])',
        '(negedge resets[2] or posedge CLK)', '(posedge resets[1], negedge clks[1])', '(negedge resets[2] or posedge clks[0])', '(posedge resets[0], negedge CLK)']


def events_family(th):
    """every form of event control with every form of reset"""
    extra = [CLK, RST, Sig('sys_clk', 'input'), Sig('clock2', 'input'), Sig('rst_n', 'input'), Sig('Reset', 'input'), Sig('main_CLOCK', 'input'), Sig('clks', 'input', 1, 0), Sig('resets', 'input', 2, 0)]
    bodies = [[N(x, B(x, '+', a)), N(z, c)], [('if', c, [N(x, a)], [N(y, x)])], [P(t, a), N(y, B(t, '^', x)), N(x, t)]]
    for sn in SENS:
        used_ = [g for g in extra if g.name in sn.replace('[', ' ').replace(')', ' ').replace(',', ' ').split()]
        rst = next((g for g in used_ if 'r' in g.name.lower()[:2]), RST)
        rsts = [V(rst.name)] if rst.msb is None else [IX(rst.name, k) for k in ((2, 0) if 'resets[1' not in sn else (1,))]
        for word in ('always', 'always_ff'):
            for body in bodies:
                yield sn, extra, [('always', sn, body, word)]
                for rv in rsts:
                    for cond in (rv, U('!', rv), U('~', rv), B(rv, '==', K('0')), B(rv, '==', K("1'b1"))):
                        yield sn, extra, [('always', sn, [('if', cond, [N(x, K("2'd0")), N(y, K("2'd1")), N(z, K("1'b0"))], body)], word)]
                    if word == 'always':
                        yield sn, extra, [('always', sn, [('if', rv, [N(x, K('0'))], [('if', c, body, [N(x, y)])])], word)]
                        yield sn, extra, [('always', sn, body + [('if', rv, [N(x, K("2'd3"))], None)], word)]


def several(th):
    ev = '(posedge CLK)'
    sg = [CLK, RST] + INS + REGS
    W = lambda n, m=None, l=None: Sig(n, 'wire', m, l)
    w = V('w')
    yield 'two blocks', sg, [('always', ev, [N(x, y)]), ('always', ev, [N(y, x)])]
    yield 'two blocks', sg, [('always', ev, [N(x, B(y, '+', a))]), ('always', '(negedge CLK)', [N(y, x)])]
    yield 'two clocks', sg + [Sig('clk2', 'input')], [('always', ev, [('if', c, [N(x, y)], None)]), ('always', '(posedge clk2 or negedge RST)', [('if', U('!', V('RST')), [N(y, K('0'))], [N(y, x)])])]
    yield 'bits in blocks', sg, [('always', ev, [N(IX('x', 0), c)]), ('always', ev, [N(IX('x', 1), s)])]
    yield 'bits in blocks', sg, [('always', ev, [('if', c, [N(IX('x', 1), IX('x', 0))], None)]), ('always', ev, [N(IX('x', 0), IX('x', 1))])]
    for e in (B(x, '+', a), T(c, x, y), CAT(IX('x', 0), z), B(x, '&', y)):
        yield 'wire', sg + [W('w', 1, 0)], [('assign', w, e), ('always', ev, [('if', s, [N(x, w)], [N(y, w)])])]
        yield 'comb block', sg + [Y('w', 1, 0)], [('always', '*', [P(w, e), ('if', s, [P(w, K("2'd1"))], None)]), ('always', ev, [N(x, w), N(y, x)])]
        yield 'comb block', sg + [Y('w', 1, 0)], [('always', ev, [N(x, w), N(y, B(w, '^', a))]), ('always', '*', [('case', x, [([K("2'd0")], [P(w, e)]), (None, [P(w, a)])])])]
        yield 'output', sg + [Sig('o', 'output', 1, 0)], [('always', ev, [N(x, e)]), ('assign', V('o'), B(x, '^', y))]
        yield 'output reg', sg + [Sig('o', 'output reg', 1, 0)], [('always', ev, [('if', c, [N(V('o'), e)], [N(x, V('o'))])])]
    yield 'fsm', sg, [('always', '(posedge CLK or negedge RST)', [('if', U('!', V('RST')), [N(x, K("2'd0")), N(z, K('0'))],
                      [('case', x, [([K("2'd0")], [('if', c, [N(x, K("2'd1"))], None)]), ([K("2'd1")], [N(x, K("2'd2")), N(z, K("1'b1"))]), ([K("2'd2")], [('if', s, [N(x, K("2'd0"))], [N(x, K("2'd3"))])]), (None, [N(x, K("2'd0")), N(z, K('0'))])])])])]
    yield 'shift', sg, [('always', ev, [N(x, CAT(IX('x', 0), c)), N(y, CAT(s, IX('y', 1)))])]
    yield 'initial', sg, [('raw', 'initial begin x = 3; y = 1; end'), ('always', ev, [N(x, y)]), ('always', ev, [('if', c, [N(y, a)], None)])]
    yield 'initial', sg, [('always', ev, [N(x, y)]), ('raw', 'initial x = 0;')]


def loops(th):
    i = V('i')
    I = Sig('i', 'integer')
    sg = [CLK] + INS + REGS + [I]
    Q = [Y('q', 3, 0)]
    ev = '(posedge CLK)'
    for n in (1, 2, 3, 4):
        yield sg + Q, [('always', ev, [('for', 'i', K('0'), B(i, '<', K(str(n))), B(i, '+', K('1')), [N(IX('q', i), c if n == 4 else IX('a', B(i, '&', K('1'))))])])]
        yield sg + Q, [('always', ev, [('for', 'i', K(str(n - 1)), B(i, '>', K('0')), B(i, '-', K('1')), [N(IX('q', i), IX('q', B(i, '-', K('1'))))]), N(IX('q', 0), c)])]
        yield sg, [('always', ev, [P(t, K("2'd0")), ('for', 'i', K('0'), B(i, '<', K(str(n))), B(i, '+', K('1')), [P(t, B(t, '+', x))]), N(x, t)])]
        yield sg, [('always', ev, [P(t, K("2'd0")), ('for', 'i', K('0'), B(i, '<', K(str(n))), B(i, '+', K('1')), [('if', B(x, '==', i), [P(t, B(t, '^', a))], None)]), N(y, t)])]
    yield sg, [('always', ev, [P(i, K('0')), P(t, x), ('while', B(i, '<', K('2')), [P(t, CAT(IX('t', 0), c)), P(i, B(i, '+', K('1')))]), N(x, t)])]
    yield sg, [('always', ev, [('if', c, [('for', 'i', K('0'), B(i, '<', K('2')), B(i, '+', K('1')), [N(IX('x', i), IX('a', i))])], [N(y, x)])])]


def memories(th):
    ev = '(posedge CLK)'
    sg = [CLK, RST] + INS + REGS
    shapes = [(1, 0, (0, 1)), (None, None, (0, 3))] + ([(3, 0, (0, 1)), (1, 0, (0, 3))] if th else [(3, 0, (0, 1))])
    i = V('i')
    for m, l, dims in shapes:
        n = dims[1] + 1
        w = 1 if m is None else m + 1
        R = Y('r', m, l, dims)
        idx = IX('a', 0) if n == 2 else a
        d_ = {1: c, 2: x, 4: CAT(x, a)}[w]
        o = [Sig('o', 'wire', m, l)]
        for at in (idx, K('0'), K(str(n - 1)), B(idx, '^', K("%d'd1" % (1 if n == 2 else 2)))):
            yield sg + [R], [('always', ev, [N(('idx', 'r', at), d_)])]
            yield sg + [R], [('always', ev, [('if', s, [N(('idx', 'r', at), d_)], None)])]
            yield sg + [R], [('always', ev, [('if', s, [N(('idx', 'r', at), d_)], [N(y, B(x, '+', K("2'd1")))])])]
            yield sg + [R] + o, [('always', ev, [('if', s, [N(('idx', 'r', at), d_)], None)]), ('assign', V('o'), ('idx', 'r', idx))]
            yield sg + [R], [('always', ev, [N(y, ('idx', 'r', at)), ('if', c, [N(('idx', 'r', at), d_)], None)])]
            yield sg + [R], [('always', ev, [('if', V('RST'), [N(('idx', 'r', K('0')), K('0'))], [N(('idx', 'r', at), ('idx', 'r', idx))])])]
            if w > 1:
                yield sg + [R], [('always', ev, [N(('mpart', 'r', at, w - 1, w // 2), d_)])]
                yield sg + [R], [('always', ev, [N(('midx', 'r', at, 0), c)])]
                yield sg + [R], [('always', ev, [('if', c, [N(('midx', 'r', at, 1), s)], None)])]
        yield sg + [R], [('always', ev, [N(('idx', 'r', K('0')), d_), N(('idx', 'r', K('1')), ('idx', 'r', K('0')))])]
        yield sg + [R], [('always', ev, [('case', idx, [([K('0')], [N(('idx', 'r', K('0')), d_)]), ([K('1')], [N(('idx', 'r', K('1')), d_)])])])]
        yield sg + [R, Sig('i', 'integer')], [('always', ev, [('for', 'i', K('0'), B(i, '<', K(str(n))), B(i, '+', K('1')), [N(('idx', 'r', i), d_)])])]
        yield sg + [R, Sig('i', 'integer')], [('always', ev, [('for', 'i', K(str(n - 1)), B(i, '>', K('0')), B(i, '-', K('1')), [N(('idx', 'r', i), ('idx', 'r', B(i, '-', K('1'))))]), N(('idx', 'r', K('0')), d_)])]


def written_again(th):
    """two writes to words or bits, each plain or in a branch (words: at the same or another constant or variable address)"""
    ev = '(posedge CLK)'
    R = Y('r', 1, 0, (0, 1))
    c0 = IX('a', 0)
    at = [('idx', 'r', c0), ('idx', 'r', K('0')), ('idx', 'r', K('1')), ('idx', 'r', s)]
    for m, (sg, ps) in enumerate((([CLK] + INS + REGS + [R], at), ([CLK] + INS + REGS, [IX('x', c0), IX('x', K('0')), IX('x', K('1')), IX('x', s), x]))):
        for p, q in itertools.product(ps, repeat=2):
            wide = m == 0
            d1, d2 = (a, y) if wide else (z, c)
            u, v = N(p, d1), N(q, d2)
            yield sg, [('always', ev, [u, v])]
            yield sg, [('always', ev, [u, ('if', c, [v], None)])]
            yield sg, [('always', ev, [('if', c, [u], None), v])]
            yield sg, [('always', ev, [('if', c, [u], [v])])]
            yield sg, [('always', ev, [u, ('if', c, [N(y, x)], [v])])]
            yield sg, [('always', ev, [('if', c, [u, ('if', z, [v], None)], None)])]
            yield sg, [('always', ev, [u, ('case', x, [([K("2'd1")], [v]), (None, [N(z, c)])])])]
            if th or p == q:
                yield sg, [('always', ev, [u, ('if', c, [v], None), ('if', z, [N(p, d2)], None)])]
                yield sg, [('always', ev, [('if', c, [u], None), ('if', z, [v], [N(y, a)])])]


def functions(th):
    ev = '(posedge CLK)'
    sg = [CLK] + INS + REGS
    A = lambda n, m=None, l=None: Sig(n, 'input', m, l)
    p, f = V('p'), V('f')
    fs = [Func('f', (1, 0), [A('p', 1, 0)], [('=', f, B(p, '+', K("2'd1")))]),
          Func('f', (1, 0), [A('p', 1, 0)], [('if', IX('p', 0), [('=', f, p)], [('=', f, U('~', p))])]),
          Func('f', (1, 0), [A('p', 1, 0)], [('=', f, p), ('case', p, [([K("2'd2")], [('=', f, K("2'd0"))])])])]
    for fn in fs:
        for e in (CALL('f', x), CALL('f', B(x, '^', a)), B(CALL('f', x), '&', CALL('f', y)), CALL('f', CALL('f', a))):
            yield sg, [fn], [('always', ev, [N(x, e)])]
            yield sg, [fn], [('always', ev, [('if', c, [N(y, e)], [N(x, y)])])]
            yield sg, [fn], [('always', ev, [P(t, e), N(y, t), ('if', s, [N(x, t)], None)])]


SIMULATED = {'blocks': 17, 'several': 1, 'loops': 1, 'memories': 2, 'functions': 2, 'written again': 3}


def conform(designs, st, names=('CLK', 'RST', 'a', 'c', 's')):
    """the reference interpreter against the simulator, one rising clock edge from every state"""
    for part in core.chunks(designs, 40):
        jobs, want = [], []
        for j, (key, d) in enumerate(part):
            if any(i[0] == 'always' and 'edge' in i[1] and i[1] != '(posedge CLK)' for i in d.items) or any(g.dims for g in spaces(d)[0]) or any(g.name not in names for g in ins_of(d)):
                continue
            m = sim.Machine(d)
            free, fixed = spaces(d)
            regs = {g.name for g in clocked_of(d)}
            vecs, refs = [], []
            for vs in itertools.product(*[domain(g) for g in free]):
                full = dict(fixed)
                full.update((g.name, v) for g, v in zip(free, vs))
                full['CLK'] = 1
                try:
                    ref = m.step(full)
                except dfv.Skip:
                    continue
                vecs.append({('u.' + n if n in regs else n): v for n, v in full.items() if n != 'CLK' and not isinstance(v, list)})
                refs.append(ref)
            obs = [g for g in d.sigs if g.name in regs and not g.dims]
            if not vecs or not obs:
                continue
            e2 = Design(d.sigs, d.items, d.funcs, 'd%d' % j)
            jobs.append((e2.text(), 'd%d' % j, [(g.name, g.width) for g in ins_of(d)], vecs, [g.name for g in obs], True))
            want.append((key, obs, refs))
        if not jobs:
            continue
        for (key, obs, refs), got, job in zip(want, sim.simulate(jobs), jobs):
            for ref, vals, env in zip(refs, got, job[3]):
                for g, p in zip(obs, vals):
                    st.count('simulator_comparisons')
                    if not sim.agrees(ref[g.name], p, g.width):
                        raise RuntimeError('reference and simulator differ: %s: with %s, next %s is %s, simulator %s\n%s' % (key, env, g.name, show(ref[g.name], g.width), p, job[0]))


def text(items):
    return ' '.join(sim.item_text(i) for i in items)


def run(ctx):
    th = ctx.thorough
    fam = {
        'blocks': lambda: (('clocked ' + sim.block_text(bk), Design([CLK] + INS + REGS, [('always', '(posedge CLK)', bk)])) for bk in blocks(th)),
        'events': lambda: (('events ' + text(it), Design(ex + INS + REGS, it)) for sn, ex, it in events_family(th)),
        'several': lambda: (('several %s ' % k + text(it), Design(sg, it)) for k, sg, it in several(th)),
        'loops': lambda: (('loops ' + text(it), Design(sg, it)) for sg, it in loops(th)),
        'memories': lambda: (('memories ' + ' '.join(g.text() for g in sg if g.dims) + ' ' + text(it), Design(sg, it)) for sg, it in memories(th)),
        'written again': lambda: (('written again ' + text(it), Design(sg, it)) for sg, it in written_again(th)),
        'functions': lambda: (('functions ' + fs[0].text() + ' ' + text(it), Design(sg, it, fs)) for sg, fs, it in functions(th)),
    }
    n = 16 if th else 8

    def work(u, st):
        f, i, k = u
        if f == 'simulate':
            return conform(((key, d) for j, (key, d) in enumerate(fam[i]()) if j % (k[0] * SIMULATED[i]) == k[1] * SIMULATED[i]), st)
        for j, (key, d) in enumerate(fam[f]()):
            if j % k == i:
                judge(d, key, st)
                if j // k % 5 == 0:
                    judge(d, 'without reordering ' + key, st, noreorder=True)

    with core.quiet():
        ctx.explore([(f, i, n) for f in fam for i in range(n)] + [('simulate', f, (6, i)) for f in SIMULATED for i in range(6)], work)
    ctx.stats.count('nontrivial', ctx.stats.n['judged'])
    ctx.stats.sample(Design([CLK, RST] + INS + REGS, next(iter(several(False)))[2]).text())
    ctx.rule = ('one state is one clocked design analysed by the real analyser; its transitions are all valuations of its inputs and registers, from each of which '
                'the dataflow of every register is evaluated and compared with one step of the reference interpreter; distinct_observed_outcomes are different dataflows')
    ctx.bounds = {
        'inputs and registers': 'a [1:0], c, s; x, y, t [1:0], z; all valuations; memories of 2 or 4 words',
        'blocks': 'all sequences of up to 2 of 18 assignments (nonblocking, blocking, whole, part, concatenated), of 3 of %d; all if / if-else / nested / case statements over pairs; pairs of compound statements' % (18 if th else 8),
        'events': '%d event controls x always/always_ff x 6 reset conditions x 3 bodies' % len(SENS),
        'written again': 'every pair of writes to words (bits) at the same or another constant or variable address, plain and in branches',
        'several, loops, memories, functions': 'the lists in mc/checks/p16_clocked.py',
        'outside': 'clocks and resets whose names do not say so (the analyser recognises them by name); blocks that write one variable through overlapping parts in changing order',
        'options': 'reordering on; every fifth design also with it off',
    }
    ctx.assumptions = ['the installed simulator implements Verilog (the reference interpreter is compared with it on a fixed part of the same designs, every run)',
                       'a renamed variable stands for the value of one assignment']
