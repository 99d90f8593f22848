"""P17: elaboration creates exactly the instances, parameters and connections written."""
import collections
import itertools

from mc import core, dfv, elab, fsm, sim, vp
from mc.checks.p15_comb import show
from mc.checks.p16_clocked import N, P, clocked_of, domain, spaces
from mc.elab import Mod
from mc.sim import B, CALL, CAT, IX, K, PS, REP, T, U, V, Func, Sig

a, c, s, e, p, q, t, w, x, y, z, i, j, W = (V(n) for n in 'acsepqtwxyzijW')


def S(kind, name, m=None, l=0, dims=None):
    return ('sig', kind, name, None if m is None else (m, l), dims)


TOP = [S('input', 'a', 1), S('input', 'c'), S('input', 's')]


def labels(mods):
    r = set()

    def go(it):
        for k in it:
            if k[0] == 'genfor':
                r.add(k[5])
                go(k[6])
            elif k[0] == 'genif':
                r.update([k[2], k[4]])
                go(k[3])
                go(k[5] or [])
            elif k[0] == 'gencase':
                for _, l, b in k[2]:
                    r.add(l)
                    go(b)
            elif k[0] == 'generate':
                go(k[1])
    for m in mods:
        go(m.items)
    return r


def canon(chain, known):
    out, loop = [], None
    for l in chain.scopechain[1:]:
        if l.scopetype == 'for':
            loop = l.scopeloop
        elif l.scopetype == 'block':
            out.append(l.scopename + ('' if loop is None else '[%s]' % loop) if l.scopename in known else '?')
            loop = None
        elif l.scopetype in ('module', 'signal'):
            out.append(l.scopename)
    return '.'.join(out)


def veil(path):
    return '.'.join('?' if h.startswith('?') else h for h in path.split('.'))


def judge(mods, key, st, noreorder=False):
    top = mods[-1].name
    src = '\n'.join(m.text() for m in mods)
    st.count('evaluations')

    def bad(what, **kw):
        st.fail(key, what, dict(kw, text=src))
        return False

    r = core.attempt(lambda: vp.analyze(src, top, noreorder))
    if r[0] == 'exc':
        return bad('analysis raised %s: %s' % (r[1], r[2]))
    an = r[1]
    ref = elab.Elab(mods, top)
    d = ref.design
    known = labels(mods)
    can = lambda n: canon(n, known)
    # instances
    got = collections.Counter((can(n), m) for n, m in an.getInstances())
    want = collections.Counter((veil(n), m) for n, m in ref.insts)
    if got != want:
        return bad('instances %s, the text has %s' % (sorted((got - want).elements()), sorted((want - got).elements())))
    flow = sim.Flow(an.getTerms(), an.getBinddict())
    # signals and constants
    for what, table, fits in (('getSignals', an.getSignals(), lambda t: not t & {'Parameter', 'Localparam', 'Genvar', 'Rename', 'Function'}), ('getConsts', an.getConsts(), lambda t: t & {'Parameter', 'Localparam', 'Genvar'})):
        got, want = sorted(map(str, table or ())), sorted(str(n) for n, tm in an.getTerms().items() if fits(tm.termtype))
        got, want = [[n for n in ns if '.nonet' not in n] for ns in (got, want)]        # (nets without declaration are not judged)
        if got != want:
            return bad('%s gives %s, the terms of that kind are %s' % (what, got, want))
        for n, defs in table.items():
            if {q.__class__.__name__ for q in defs} != set(an.getTerms()[n].termtype):
                return bad('%s gives %s as %s, its kinds are %s' % (what, n, [q.__class__.__name__ for q in defs], sorted(an.getTerms()[n].termtype)))
    by, consts = {}, {}
    for n, tm in an.getTerms().items():
        if tm.termtype & {'Rename', 'Genvar', 'Function'}:
            continue
        path = can(n)
        table = consts if tm.termtype & {'Parameter', 'Localparam'} else by
        if path in table and '?' not in path:
            return bad('two signals are named %s' % path)
        table[path] = n
    hidden = set(veil(n) for n in ref.names) | set(veil(n) for n in ref.consts)
    for path in sorted(set(by) | set(ref.names)):
        if path in by and path not in ref.names and path not in hidden:
            return bad('there is no signal %s in the text' % path)
        if path not in by and '?' not in path:
            return bad('signal %s is missing' % path)
    for path in sorted(set(consts) | set(ref.consts)):
        if path in consts and path not in ref.consts and path not in hidden:
            return bad('there is no constant %s in the text' % path)
        if path not in consts and '?' not in path:
            return bad('constant %s is missing' % path)
    ev = dfv.Full({}, True)
    for path, (v, wd, sg) in ref.consts.items():
        if '?' in path:
            continue
        st.count('constants')
        try:
            g = flow.value(consts[path], sim.Values(flow, {}))
        except (dfv.Skip, dfv.Bad) as ex:
            return bad('constant %s has no value (%s)' % (path, ex))
        if g[1] or g[2] or (g[0] ^ v) & dfv.mask(max(wd, 32) if sg else wd):
            return bad('constant %s is %s, the text makes it %d' % (path, g, v), dataflow=[b.tostr() for b in flow.bindof.get(str(consts[path]), ())])
        kind = 'Parameter' if ref.kinds[path] == 'param' else 'Localparam'
        if kind not in flow.terms[consts[path]].termtype:
            return bad('%s is no %s' % (path, kind))
    targets = [g for g in d.sigs if g.kind not in ('input', 'integer') and '?' not in g.name]
    for g in d.sigs:
        if '?' in g.name:
            continue
        st.count('signals')
        try:
            sh = flow.shapes[by[g.name]]
        except (dfv.Skip, dfv.Bad) as ex:
            return bad('signal %s has no width (%s)' % (g.name, ex))
        if g.kind != 'integer' and tuple(sh) != tuple(g.shape()):
            return bad('signal %s has width, lowest index, descending, words %s, the text says %s' % (g.name, sh, g.shape()))
    # clocks
    for it in d.items:
        if it[0] == 'always' and 'edge' in it[1]:
            ws = it[1].strip('()').split()
            ck = next(((ws[k], ws[k + 1]) for k in range(len(ws) - 1) if ws[k].endswith('edge') and 'clk' in ws[k + 1].split('.')[-1].lower()), None)
            rs = next(((ws[k], ws[k + 1]) for k in range(len(ws) - 1) if ws[k].endswith('edge') and 'rst' in ws[k + 1].split('.')[-1].lower()), None)
            for n in sim.item_uses(it, d)[1]:
                for b in flow.bindof.get(str(by.get(n)), ()) if '?' not in n else ():
                    st.count('bindings')
                    if not b.isClockEdge() or (b.getClockEdge(), can(b.getClockName())) != ck:
                        return bad('the clock of %s is recorded as %s %s, the text says %s' % (n, b.getClockEdge(), b.getClockName(), ck))
                    if (rs is None) != (b.getResetName() is None) or (rs is not None and (b.getResetEdge(), can(b.getResetName())) != rs):
                        return bad('the reset of %s is recorded as %s %s, the text says %s' % (n, b.getResetEdge(), b.getResetName(), rs))
    # values
    m = sim.Machine(d)
    free, fixed = spaces(d)
    free = [g for g in free if 'clk' not in g.name.lower()]
    regs = {g.name for g in clocked_of(d)}
    for g in d.sigs:
        if g.kind == 'input' and 'clk' in g.name.lower():
            fixed[g.name] = 1
    for vs in itertools.product(*[domain(g) for g in free]):
        st.count('transitions')
        full = dict(fixed)
        full.update((g.name, v) for g, v in zip(free, vs))
        try:
            rv = m.settle(full)
            rv.update(m.step(full))
        except dfv.Skip as ex:
            st.count('unjudged valuations')
            continue
        vals = sim.Values(flow, {str(by[n]): tuple(v) if isinstance(v, (list, tuple)) else v for n, v in full.items() if n in by})
        for g in targets:
            v0s = rv[g.name] if g.dims else [rv[g.name]]
            if all((v[1] | v[2]) == dfv.mask(g.width) and not v[2] for v in v0s):
                continue
            try:
                v1 = flow.value(by[g.name], vals)
            except (dfv.Skip, dfv.Bad) as ex:
                v1 = ex
            v1s = v1 if isinstance(v1, list) else [v1]
            if g.name in regs and not isinstance(v1, Exception):
                now = full[g.name] if g.dims else [full[g.name]]
                v1s = [((o[0] & ~o[2]) | (u & o[2]), o[1] & ~o[2], 0) for o, u in zip(v1s, now)]
            st.count('judged')
            st.count('traces')
            ok = not isinstance(v1, Exception) and len(v0s) == len(v1s) and all(dfv.same(tuple(o[:3]) + (g.width,), tuple(u[:3]) + (g.width,)) for o, u in zip(v0s, v1s))
            if not ok:
                gv = 'no value (%s)' % v1 if isinstance(v1, Exception) else ' '.join(show(o, g.width) for o in v1s)
                return bad('with %s, %s is %s and its dataflow gives %s' % ({h.name: v for h, v in zip(free, vs)}, g.name, ' '.join(show(o, g.width) for o in v0s), gv),
                           dataflow=[b.tostr() for b in flow.bindof.get(str(by[g.name]), ())])
    st.state(key)
    st.outcome(tuple(sorted((can(n), b.tostr()) for n, bs in an.getBinddict().items() for b in bs)))
    return True


# -- families -----------------------------------------------------------------------------
def children():
    """small modules: input p, output q"""
    yield Mod('sub', [('param', 'W', None, K('2')), S('input', 'p', B(W, '-', K('1'))), S('output', 'q', B(W, '-', K('1'))), ('assign', q, U('~', p))])
    yield Mod('sub', [('param', 'W', None, K('2')), S('input', 'p', B(W, '-', K('1'))), S('output reg', 'q', B(W, '-', K('1'))), S('wire', 't', B(W, '-', K('1'))),
                      ('assign', t, B(p, '+', K('1'))), ('always', '*', [('if', IX('p', 0), [P(q, t)], [P(q, p)])])])


STYLES = ('ansi', 'mixed', 'old')


def connections(th):
    """every kind of connection of an input and of an output, by name and by place, in both orders"""
    ins = [a, c, K("2'd1"), CAT(c, s), CAT(a, c), PS('a', 1, 1), IX('a', 0), IX('a', c), B(a, '+', K("2'd1")), T(c, a, K("2'd2")), U('~', a), PS('g', 2, 1), None, K('1'), REP(2, c), ('idx', 'r', c)]
    outs = [x, y, PS('f', 2, 1), IX('f', 3), CAT(z, y), CAT(y, z), CAT(IX('f', 0), PS('f', 2, 1)), V('nonet2'), None, CAT(IX('x', 1), IX('x', 0))]
    sigs = [S('wire', 'x', 1), S('wire', 'y'), S('wire', 'z'), S('wire', 'f', 3), S('wire', 'g', 3), S('wire', 'k', 1), S('wire', 'r', 1, 0, (0, 1)), ('assign', V('g'), CAT(a, c, s)), ('assign', ('idx', 'r', K('0')), a), ('assign', ('idx', 'r', K('1')), CAT(s, c))]
    kids = list(children())
    for wd in (1, 2, 3):
        for n, (ie, oe) in enumerate(itertools.product(ins, outs)):
            if oe is not None and oe[0] == 'cat' and {2: 2, 3: 3}.get(sum(2 if k[0] == 'part' else 1 for k in oe[1:])) > wd:
                continue            # a source narrower than a concatenation: judged (and found wanting) by P15
            if wd == 3 and ie is not None and ie[0] in ('b', 'u'):
                continue            # whether a connected expression is widened before it is computed: simulators differ
            for kid in kids if th else kids[n % 2:n % 2 + 1]:
                for sn, style in enumerate(STYLES):
                    if not th and (n + wd) % 3 != sn:
                        continue
                    sub = Mod('sub', kid.items, style)
                    par = [] if wd == 2 else [('W' if n % 2 else None, K(str(wd)))]
                    forms = [[('p', ie), ('q', oe)], [('q', oe), ('p', ie)], [(None, ie), (None, oe)]]
                    for fn, ports in enumerate(forms):
                        if fn == 2 and (ie is None or oe is None):
                            continue        # the grammar has no empty place in an ordered list
                        if not th and (n + fn) % 3 != wd - 1:
                            continue
                        yield [sub, Mod('m', TOP + sigs + [('inst', 'sub', 'u', par, ports, None), ('assign', V('k'), CAT(c, s))])]


    # ports whose least significant bit has another index than 0
    for hi, lo in ((V('W'), K('1')), (K('1'), V('W')), (K('0'), B(W, '-', K('1'))), (B(W, '+', K('2')), K('3'))):
        kid = Mod('sub', [('param', 'W', None, K('2')), ('sig', 'input', 'p', (hi, lo), None), ('sig', 'output', 'q', (hi, lo), None), ('assign', q, U('~', p))])
        for n, (ie, oe) in enumerate(itertools.product(ins, outs)):
            for wd in (2,) if not th else (2, 3):
                if oe is not None and oe[0] == 'cat' and {2: 2, 3: 3}.get(sum(2 if k[0] == 'part' else 1 for k in oe[1:])) > wd or wd == 3 and ie is not None and ie[0] in ('b', 'u'):
                    continue
                if th or oe is None or oe[0] == 'cat' or n % 3 == 0:
                    yield [Mod('sub', kid.items, STYLES[n % 3]), Mod('m', TOP + sigs + [('inst', 'sub', 'u', [('W', K(str(wd)))], [('p', ie), ('q', oe)] if n % 2 or ie is None or oe is None else [(None, ie), (None, oe)], None), ('assign', V('k'), CAT(c, s))])]


def parameters(th):
    """defaults, overrides by name and by place, dependent parameters and local parameters, two levels"""
    Pm, Q, L, M_ = V('P'), V('Q'), V('L'), V('M')
    defs = [[('param', 'P', None, K('2')), ('param', 'Q', None, K('1'))],
            [('param', 'P', None, K('2')), ('param', 'Q', None, B(Pm, '+', K('1')))],
            [('param', 'P', (K('3'), K('0')), K('5')), ('param', 'Q', None, B(Pm, '*', K('2')))],
            [('param', 'P', None, K("4'd3")), ('param', 'Q', (1, 0), K("2'd2"))],
            [('param', 'P', None, U('-', K('1'))), ('param', 'Q', None, B(K('8'), '>>', K('1')))],
            [('param', 'P', None, T(B(K('3'), '>', K('2')), K('3'), K('4'))), ('param', 'Q', None, CAT(K("1'b1"), K("2'd1")))]]
    overs = [[], [('P', K('3'))], [('Q', K('2'))], [('Q', K('3')), ('P', K('1'))], [(None, K('3'))], [(None, K('1')), (None, K('3'))], [('P', B(V('M'), '+', K('1')))], [('P', K("4'd9"))], [('Q', V('H'))], [('P', V('M')), ('Q', V('M'))],
             [('P', U('-', K('2')))], [('P', K('18'))], [('Q', T(B(V('M'), '==', K('2')), K('1'), K('3')))], [('P', B(V('M'), '<<', K('1'))), ('Q', B(V('H'), '%', K('3')))]]
    locs = [[('localparam', 'L', None, B(Pm, '+', Q))], [('localparam', 'L', None, T(B(Pm, '>', Q), Pm, Q)), ('localparam', 'J', None, B(L, '*', K('2')))], [('localparam', 'L', (3, 0), B(Pm, '*', Q))]]
    for dn, df in enumerate(defs):
        for on, ov in enumerate(overs):
            for ln, lc in enumerate(locs):
                for sn, style in enumerate(STYLES[:2]):
                    if not th and (dn + on + ln) % 2 != sn:
                        continue
                    sub = Mod('sub', df + lc + [S('input', 'p', 3), S('output', 'q', 3), S('output', 'k'), ('assign', q, B(B(p, '+', Pm), '^', L)), ('assign', V('k'), B(p, '==', Q))], style)
                    yield [sub, Mod('m', [('param', 'M', None, K('2')), ('localparam', 'H', None, B(M_, '*', K('2')))] + TOP + [S('output', 'o', 3), S('wire', 'y'), ('inst', 'sub', 'u', ov, [('p', CAT(a, c, s)), ('q', V('o')), ('k', y)], None)], style)]
    # width, range, loop and condition from parameters, through two levels, two instances with different values
    for v1, v2 in itertools.product((1, 2, 3), (1, 2, 4)):
        leaf = Mod('leaf', [('param', 'N', None, K('2')), S('input', 'p', B(V('N'), '-', K('1'))), S('output', 'q'), S('wire', 't', V('N'), 1), ('assign', V('t'), p), ('assign', q, U('^', V('t')))])
        sub = Mod('sub', [('param', 'W', None, K('2')), S('input', 'p', B(W, '-', K('1'))), S('output', 'q', 1), ('localparam', 'V', None, B(W, '+', K('1'))), S('wire', 'w', B(V('V'), '-', K('1'))), ('assign', w, CAT(p, IX('p', 0))),
                          ('inst', 'leaf', 'l0', [('N', W)], [('p', p), ('q', IX('q', 0))], None), ('inst', 'leaf', 'l1', [(None, V('V'))], [(None, w), (None, IX('q', 1))], None)])
        yield [leaf, sub, Mod('m', TOP + [S('wire', 'x', 1), S('wire', 'y', 1), ('inst', 'sub', 'u1', [('W', K(str(v1)))], [('p', CAT(a, c, s)), ('q', x)], None), ('inst', 'sub', 'u2', [(None, K(str(v2)))], [('p', CAT(s, a, c)), ('q', y)], None)])]
        yield [leaf, sub, Mod('m', TOP + [S('wire', 'x', 1), S('wire', 'y', 1), ('inst', 'sub', 'u1', [('W', K(str(v1)))], [('p', CAT(a, c, s)), ('q', x)], None), ('inst', 'sub', 'u2', [], [('p', x), ('q', y)], None)], 'old')]
    # declared ranges cut what a parameter or local parameter is given
    for v, wd in itertools.product((None, 2, 5, 7, 9), (1, 2)):
        for sub in (Mod('sub', [('param', 'W', (wd, 0), K('6')), S('input', 'p', 3), S('output', 'q', 7), S('wire', 't', W), ('assign', V('t'), p), ('assign', q, V('t'))]),
                    Mod('sub', [('param', 'P', None, K('6')), ('localparam', 'W', (wd, 0), B(Pm, '+', K('1'))), S('input', 'p', 3), S('output', 'q', 7), S('wire', 't', W), ('assign', V('t'), p), ('assign', q, V('t'))], 'old'),
                    Mod('sub', [('param', 'W', (wd, 0), K('6')), S('input', 'p', 3), S('output', 'q', 7), S('wire', 't', 3), ('generate', [('genif', B(W, '>', K('2')), 'big', [('assign', V('t'), p)], 'little', [('assign', V('t'), U('~', p))])]), ('assign', q, V('t'))], 'mixed')):
            if v is None:
                yield [sub]
            yield [sub, Mod('m', TOP + [S('wire', 'x', 7), ('inst', 'sub', 'u', [] if v is None else [(None if v % 2 else 'W' if sub.items[0][1] == 'W' else 'P', K(str(v)))], [('p', CAT(a, c, s)), ('q', x)], None)])]
    for ov in ([], [('N', K('3'))], [('P', K('6'))], [('P', K('6')), ('N', K('3'))], [(None, K('3')), (None, K('6'))]):
        sub = Mod('sub', [('param', 'N', None, K('2')), ('param', 'P', (B(V('N'), '-', K('1')), K('0')), K('1')), ('localparam', 'L', (V('N'), K('1')), B(Pm, '+', K('3'))), S('input', 'p', Pm), S('output', 'q', V('N')), ('assign', q, B(p, '^', L))])
        yield [sub, Mod('m', TOP + [S('wire', 'x', 3), ('inst', 'sub', 'u', ov, [('p', CAT(a, c, s)), ('q', x)], None)])]
    for ov in ([], [('P', K('5'))], [('P', K('1'))], [(None, B(V('M'), '+', K('1')))]):
        sub = Mod('sub', [('param', 'P', None, K('2')), ('localparam', 'L', None, B(Pm, '*', K('2'))), ('localparam', 'J', None, B(L, '-', K('3'))), S('input', 'p', 3), S('output', 'q', 3), S('wire', 't', V('J')), ('genvar', 'i'),
                          ('generate', [('genif', B(L, '>', K('5')), 'big', [('assign', V('t'), p)], 'little', [('assign', V('t'), U('~', p))]), ('genfor', 'i', K('0'), B(V('i'), '<', V('J')), B(V('i'), '+', K('1')), 'lp', [S('wire', 'g', V('J')), ('assign', V('g'), B(p, '+', V('i')))])]), ('assign', q, V('t'))])
        for style in STYLES:
            yield [Mod('sub', sub.items, style), Mod('m', [('param', 'M', None, K('2'))] + TOP + [S('wire', 'x', 3), ('inst', 'sub', 'u', ov, [('p', CAT(a, c, s)), ('q', x)], None)])]
    # constants of the top module in every place
    for ps in ([('param', 'P', None, K('1'))], [('localparam', 'P', None, K('1'))], [('param', 'P', None, K("2'd1"))], [('param', 'P', (1, 0), K('1'))], [('localparam', 'R', None, K('3')), ('localparam', 'P', None, B(V('R'), '-', K('2')))]):
        for ex in (B(a, '+', Pm), IX('a', Pm), PS('a', Pm, K('0')), T(B(Pm, '==', K('1')), a, c), B(a, '<<', Pm), ('rep', B(Pm, '+', K('1')), c), CAT(IX('P', 0), c), U('~', Pm), B(B(a, '-', Pm), '>', K("2'd1"))) + ((CAT(Pm, c),) if ps[0][2] is not None or ps[0][3] == K("2'd1") else ()):
            yield [Mod('m', ps + TOP + [S('wire', 'x', 2), ('assign', x, ex)])]


def generates(th):
    """loops, conditions and cases: what is inside x the control x labels x nesting"""
    iv = V('i')
    kid = next(children())
    G = ('genvar', 'i')
    wrap = lambda it: ('generate', it)
    base = TOP + [S('wire', 'x', 3), S('wire', 'y', 3), S('output', 'o', 3), S('reg', 'h', 3)]
    bodies = [
        [('assign', IX('x', iv), IX('y', iv))],
        [S('wire', 'g', 1), ('assign', V('g'), B(a, '+', iv)), ('assign', IX('x', iv), IX('g', 1))],
        [('inst', 'sub', 'u', [('W', K('1'))], [('p', IX('y', iv)), ('q', IX('x', iv))], None)],
        [('inst', 'sub', 'u', [('W', B(iv, '+', K('1')))], [('p', CAT(c, a)), ('q', V('g'))], None), S('wire', 'g', iv), ('assign', IX('x', iv), IX('g', iv))],
        [('always', '*', [('if', c, [P(IX('h', iv), IX('y', iv))], [P(IX('h', iv), U('~', IX('y', iv)))])]), ('assign', IX('x', iv), IX('h', iv))],
        [('localparam', 'L', None, B(iv, '*', K('2'))), S('wire', 'g', 2), ('assign', V('g'), B(a, '+', V('L'))), ('assign', IX('x', iv), IX('g', 0))],
        [('genif', B(iv, '==', K('1')), 'one', [('assign', IX('x', iv), c)], 'other', [('assign', IX('x', iv), IX('y', iv))])],
        [('genif', B(iv, '>', K('0')), 'one', [S('wire', 'g'), ('assign', V('g'), c), ('assign', IX('x', iv), V('g'))], None, None)],
        [('genif', B(iv, '==', K('0')), 'one', [('assign', IX('x', iv), c)], None, [('genif', B(iv, '==', K('1')), 'two', [('assign', IX('x', iv), s)], 'three', [('assign', IX('x', iv), IX('y', iv))])])],
        [('assign', PS('x', iv, iv), IX('a', B(iv, '%', K('2'))))],
    ]
    ctl = [(K('0'), B(iv, '<', K('2')), B(iv, '+', K('1'))), (K('0'), B(iv, '<', K('4')), B(iv, '+', K('2'))), (K('3'), B(iv, '>', K('1')), B(iv, '-', K('1'))), (K('1'), B(iv, '<=', K('3')), B(iv, '+', K('1'))),
           (K('0'), B(iv, '<', V('N')), B(iv, '+', K('1'))), (K('2'), B(iv, '>=', K('0')), B(iv, '-', K('1'))), (K('0'), B(iv, '!=', K('3')), B(iv, '+', K('1'))), (K('0'), B(iv, '<', K('0')), B(iv, '+', K('1')))]
    par = [('param', 'N', None, K('3'))]
    for n, (bd, (i0, cn, sp)) in enumerate(itertools.product(bodies, ctl)):
        for ln, lab in enumerate(('blk', None)):
            if lab is None and any(k[0] == 'inst' for k in bd) and n % 2:
                continue
            loop = ('genfor', 'i', i0, cn, sp, lab, bd)
            yield [kid, Mod('m', par + base + [G, ('assign', y, CAT(a, c, s)), wrap([loop])])]
            if th or n % 3 == ln:
                yield [kid, Mod('m', par + base + [('assign', y, CAT(a, c, s)), wrap([G, loop])])]
    for lab, bd in itertools.product(('blk', None), bodies[:3]):
        inner = ('genfor', 'j', K('0'), B(V('j'), '<', K('2')), B(V('j'), '+', K('1')), lab and 'in', [('assign', IX('x', B(B(iv, '*', K('2')), '+', V('j'))), IX('y', B(B(V('j'), '*', K('2')), '+', iv)))])
        yield [Mod('m', base + [G, ('genvar', 'j'), ('assign', y, CAT(a, c, s)), wrap([('genfor', 'i', K('0'), B(iv, '<', K('2')), B(iv, '+', K('1')), lab, [inner])])])]
    two = [('genfor', 'i', K('0'), B(iv, '<', K('2')), B(iv, '+', K('1')), 'b1', [('assign', IX('x', iv), IX('y', iv))]), ('genfor', 'i', K('2'), B(iv, '<', K('4')), B(iv, '+', K('1')), 'b2', [S('wire', 'g'), ('assign', V('g'), c), ('assign', IX('x', iv), V('g'))])]
    yield [Mod('m', base + [G, ('assign', y, CAT(a, c, s)), wrap(two)])]
    yield [Mod('m', base + [G, ('assign', y, CAT(a, c, s)), wrap(two[:1]), wrap(two[1:])])]
    yield [Mod('m', base + [G, ('assign', y, CAT(a, c, s)), wrap(two[:1]), wrap(two[1:]), ('assign', V('o'), B(V('x'), '^', CAT(V('b2[2].g'), V('b2[3].g'), c, c)))])]
    # a chain through the scopes of a loop
    chain = [S('wire', 'g', 1), ('genif', B(iv, '==', K('0')), 'first', [('assign', V('g'), a)], 'rest', [('assign', V('g'), B(a, '^', c))])]
    yield [Mod('m', base + [G, wrap([('genfor', 'i', K('0'), B(iv, '<', K('3')), B(iv, '+', K('1')), 'blk', chain)]), ('assign', x, CAT(V('blk[0].g'), V('blk[2].g')))])]
    # conditions on parameters, in a module with two instances
    for cond in (V('W'), B(W, '>', K('1')), B(W, '==', K('2')), U('!', B(W, '-', K('1'))), B(W, '-', K('2')), B(B(W, '>', K('1')), '&&', B(W, '<', K('4'))), B(W, '-', K('3'))):
        for lt, lf in (('t', 'f'), (None, None), ('t', None), ('g', 'g')):
            for els in (True, False):
                th_, el = [('assign', q, p)], [('assign', q, U('~', p))]
                if lt == 'g':
                    th_, el = [S('wire', 'k', 1), ('assign', V('k'), p), ('assign', q, V('k'))], [S('wire', 'k', 2), ('assign', V('k'), CAT(p, c)), ('assign', q, V('k'))]
                    th_, el = [S('wire', 'k', 1), ('assign', V('k'), p), ('assign', q, V('k'))], [S('wire', 'k', 2), ('assign', V('k'), CAT(p, IX('p', 1))), ('assign', q, V('k'))]
                sub = Mod('sub', [('param', 'W', None, K('2')), S('input', 'p', 1), S('output', 'q', 1), wrap([('genif', cond, lt, th_, lf if els else None, el if els else None)])])
                yield [sub, Mod('m', TOP + [S('wire', 'x', 1), S('wire', 'y', 1), S('wire', 'z', 1)] + [('inst', 'sub', 'u%d' % n, [] if n == 2 else [('W', K(str(n)))], [('p', a), ('q', V('xyz'[k]))], None) for k, n in enumerate((1, 2, 3))])]


def arrays(th):
    """instance arrays and gates"""
    kid = list(children())
    for l, r in ((1, 0), (0, 1), (2, 1), (1, 2), (0, 0), (2, 0), (0, 2)):
        n = abs(l - r) + 1
        for wd in (1, 2):
            tot = n * wd
            src = [K("%d'd%d" % (tot, 0x2d & dfv.mask(tot)))]
            for sm, sl in ((tot - 1, 0), (tot, 1), (0, tot - 1)):
                sg = [S('wire', 'f', sm, sl), S('wire', 'g', sm, sl), ('assign', V('f'), {1: c, 2: a, 3: CAT(a, c), 4: CAT(a, c, s), 6: CAT(a, c, s, a)}[tot])]
                par = [] if wd == 2 else [('W', K('1'))]
                for form in range(3):
                    p_in = V('f') if form < 2 else (c if wd == 1 else a)
                    ports = [('p', p_in), ('q', V('g'))] if form != 1 else [(None, p_in), (None, V('g'))]
                    yield [kid[(form + n) % 2], Mod('m', TOP + sg + [('inst', 'sub', 'u', par, ports, (l, r))])]
    for kind in ('and', 'or', 'xor', 'nand', 'nor', 'xnor'):
        for args in ([y, c, s], [y, IX('a', 0), IX('a', 1)], [y, c, s, IX('a', 1)], [IX('x', 1), c, B(c, '&', s)], [y, U('!', c), s], [IX('x', 0), T(c, s, IX('a', 0)), s]):
            for name in ('g1', ''):
                yield [Mod('m', TOP + [S('wire', 'y'), S('wire', 'x', 1), ('gate', kind, name, args, None)])]
        for l, r in ((1, 0), (0, 1), (2, 1)):
            yield [Mod('m', TOP + [S('wire', 'x', l, r), S('wire', 'y', l, r), S('wire', 'z', l, r), ('assign', x, a), ('assign', y, CAT(c, s)), ('gate', kind, 'g', [z, x, y], (l, r))])]
        yield [Mod('m', TOP + [S('wire', 'z', 1), ('gate', kind, 'g', [z, a, CAT(c, s)], (1, 0))])]
        yield [Mod('m', TOP + [S('wire', 'z', 1), ('gate', kind, 'g', [z, a, c], (1, 0))])]
        yield [Mod('m', TOP + [S('wire', 'z', 1), ('gate', kind, 'g', [z, a, c], (2, 1))])]
    for kind in ('not', 'buf'):
        for args in ([y, c], [y, IX('a', 1)], [IX('x', 1), c], [y, B(c, '^', s)], [y, w, c]):
            for name in ('g1', ''):
                yield [Mod('m', TOP + [S('wire', 'y'), S('wire', 'w'), S('wire', 'x', 1), ('gate', kind, name, args, None)])]
        for l, r in ((1, 0), (0, 1), (2, 1)):
            yield [Mod('m', TOP + [S('wire', 'x', l, r), S('wire', 'z', l, r), ('assign', x, a), ('gate', kind, 'g', [z, x], (l, r))])]


def hierarchies(th):
    """depth, sharing, names, clocks, references into instances, supplies, functions in modules"""
    CL = [S('input', 'CLK'), S('input', 'RST')]
    reg = Mod('dff', [S('input', 'CLK'), S('input', 'RST'), S('input', 'd'), S('output reg', 'q'), ('always', '(posedge CLK or negedge RST)', [('if', U('!', V('RST')), [N(q, K("1'b0"))], [N(q, V('d'))])])])
    neg = Mod('dff', [S('input', 'clk_in'), S('input', 'RST'), S('input', 'd'), S('output reg', 'q'), ('always', '(negedge clk_in)', [('if', V('RST'), [N(q, V('d'))], None)])])
    for m_ in (reg, neg):
        ck = m_.items[0][2]
        for style in STYLES:
            k = Mod('dff', m_.items, style)
            for names in (True, False):
                one = lambda n, d_, q_: ('inst', 'dff', n, [], [(ck, V('CLK')), ('RST', V('RST')), ('d', d_), ('q', q_)] if names else [(None, V('CLK')), (None, V('RST')), (None, d_), (None, q_)], None)
                yield [k, Mod('m', CL + TOP + [S('wire', 'x', 1), one('f0', c, IX('x', 0)), one('f1', IX('x', 0), IX('x', 1))])]
                yield [k, Mod('m', CL + TOP + [S('wire', 'x'), S('wire', 'y'), one('f0', x, y), one('f1', y, x)])]
            yield [k, Mod('m', CL + TOP + [S('wire', 'x', 1), ('genvar', 'i'), ('generate', [('genfor', 'i', K('0'), B(V('i'), '<', K('2')), B(V('i'), '+', K('1')), 'g', [('inst', 'dff', 'f', [], [(ck, V('CLK')), ('RST', V('RST')), ('d', IX('a', V('i'))), ('q', IX('x', V('i')))], None)])])])]
            yield [k, Mod('pair', CL + [S('input', 'd'), S('output', 'q'), S('wire', 'n'), ('inst', 'dff', 'one', [], [(ck, V('CLK')), ('RST', V('RST')), ('d', V('d')), ('q', V('n'))], None), ('inst', 'dff', 'two', [], [(ck, V('CLK')), ('RST', V('RST')), ('d', V('n')), ('q', V('q'))], None)], style),
                   Mod('m', CL + TOP + [S('wire', 'x'), S('wire', 'y'), ('inst', 'pair', 'u', [], [('CLK', V('CLK')), ('RST', V('RST')), ('d', c), ('q', x)], None), ('assign', y, V('u.n'))])]
    # three levels with the same names everywhere
    leaf = Mod('l', [S('input', 'a'), S('output', 'x'), S('wire', 'u'), ('assign', V('u'), U('!', a)), ('assign', x, V('u'))])
    mid = Mod('k', [S('input', 'a', 1), S('output', 'x', 1), ('inst', 'l', 'u0', [], [('a', IX('a', 0)), ('x', IX('x', 1))], None), ('inst', 'l', 'u1', [], [('a', IX('a', 1)), ('x', IX('x', 0))], None)])
    for e1 in (V('x'), V('w.x'), V('w.u0.u'), CAT(V('w.u1.u'), V('w.u0.x')), IX('w.x', 1), PS('w.x', 1, 0), B(V('v.x'), '^', V('w.a'))):
        yield [leaf, mid, Mod('m', TOP + [S('wire', 'x', 1), S('wire', 'y', 1), ('inst', 'k', 'w', [], [('a', a), ('x', x)], None), ('inst', 'k', 'v', [], [('a', CAT(c, s))], None), ('assign', y, e1)])]
        yield [mid, leaf, Mod('m', TOP + [S('wire', 'x', 1), S('reg', 'y', 1), ('inst', 'k', 'w', [], [('a', a), ('x', x)], None), ('inst', 'k', 'v', [], [('x', V('z')), ('a', x)], None), S('wire', 'z', 1), ('always', '*', [('if', c, [P(y, e1)], [P(y, K("2'd0"))])])])]
    # sibling instances joined through wires, in both textual orders
    kid = next(children())
    for o in itertools.permutations([('inst', 'sub', 'u0', [], [('p', a), ('q', x)], None), ('inst', 'sub', 'u1', [], [('p', x), ('q', y)], None), ('assign', z, B(x, '&', y))]):
        yield [kid, Mod('m', TOP + [S('wire', n, 1) for n in 'xyz'] + list(o))]
    yield [kid, Mod('m', TOP + [S('wire', n, 1) for n in 'xyz'] + [('inst', 'sub', 'u0', [], [('p', a), ('q', x)], None), ('inst', 'sub', 'u1', [], [('p', c), ('q', y)], None), ('inst', 'sub', 'u10', [('W', K('1'))], [('p', s), ('q', IX('z', 0))], None)])]
    for w in (0, 1, 3):
        yield [Mod('m', TOP + [S('supply0', 'gnd', w), S('supply1', 'vdd', w), S('wire', 'x', w), S('wire', 'y', w), ('assign', x, B(V('vdd'), '&', CAT(c, a, s))), ('assign', y, B(V('gnd'), '|', CAT(a, s, c)))])]
        yield [kid, Mod('m', TOP + [S('supply0', 'gnd', w), S('supply1', 'vdd', w), S('wire', 'x', 1), S('wire', 'y', 3), ('inst', 'sub', 'u', [], [('p', V('vdd')), ('q', x)], None), ('assign', y, B(V('vdd'), '-', CAT(V('gnd'), s)))])]
    f = Func('f', (1, 0), [Sig('p', 'input', 1, 0)], [('=', V('f'), B(V('p'), '+', K("2'd1")))])
    sub = Mod('sub', [S('input', 'p', 1), S('output', 'q', 1), ('func', f), ('raw', 'assign q = f(p);')])


def longs(th):
    """lists, loops, arrays and levels past the small bound (names and indices with two digits)"""
    iv = V('i')
    kid = next(children())
    wrap = lambda it: ('generate', it)
    bits = [c, s, IX('a', 0), IX('a', 1), U('!', c), B(c, '^', s), B(s, '&', IX('a', 0)), T(c, s, IX('a', 1))]
    bit = lambda k: bits[(k * 5 + k // 8) % 8]
    for n in (9, 10, 11, 12, 16, 17, 33) if th else (9, 10, 12, 17):
        R, kn = range(n), K(str(n))
        vec = CAT(*[bit(k) for k in reversed(R)])
        base = TOP + [S('wire', 'x', n - 1), S('wire', 'y', n - 1), ('assign', y, vec)]
        G = ('genvar', 'i')
        for loop in ((K('0'), B(iv, '<', kn), B(iv, '+', K('1'))), (K(str(n - 1)), B(iv, '>=', K('0')), B(iv, '-', K('1')))):
            for lab in ('blk', None):
                yield [Mod('m', base + [G, wrap([('genfor', 'i') + loop + (lab, [('assign', IX('x', iv), IX('y', B(K(str(n - 1)), '-', iv)))])])])]
                yield [kid, Mod('m', base + [G, wrap([('genfor', 'i') + loop + (lab, [('inst', 'sub', 'u', [('W', K('1'))], [('p', IX('y', iv)), ('q', IX('x', iv))], None)])])])]
            yield [Mod('m', base + [G, S('wire', 'z', 1), wrap([('genfor', 'i') + loop + ('blk', [S('wire', 'g', 1), ('assign', V('g'), B(a, '+', iv)), ('assign', IX('x', iv), IX('g', 0))])]), ('assign', V('z'), CAT(IX('blk[%d].g' % (n - 1), 1), IX('blk[1].g', 1)))])]
        yield [Mod('m', base + [G, ('genvar', 'j'), wrap([('genfor', 'i', K('0'), B(iv, '<', kn), B(iv, '+', K('1')), 'o', [('genfor', 'j', K('0'), B(V('j'), '<', K('2')), B(V('j'), '+', K('1')), 'n', [('genif', B(V('j'), '==', B(iv, '%', K('2'))), 'one', [('assign', IX('x', iv), B(IX('y', iv), '^', c))], None, None)])])])])]
        yield [kid, Mod('m', base + [('inst', 'sub', 'u%d' % k, [('W', K('1'))], [('p', IX('y', k)), ('q', IX('x', k))], None) for k in R])]
        yield [kid, Mod('m', TOP + [S('wire', 'x%d' % k, 1) for k in R] + [('inst', 'sub', 'u%d' % k, [], [('p', V('x%d' % (k - 1)) if k else a), ('q', V('x%d' % k))], None) for k in R])]
        for l, r in ((n - 1, 0), (0, n - 1), (n, 1)):
            for ports in ([('p', y), ('q', x)], [(None, y), (None, x)]):
                yield [kid, Mod('m', base + [('inst', 'sub', 'u', [('W', K('1'))], ports, (l, r))])]
        wide = Mod('sub', [S('input', 'p%d' % k) for k in R] + [S('output', 'q%d' % k) for k in R] + [('assign', V('q%d' % k), B(V('p%d' % k), '^', V('p%d' % (n - 1 - k)))) for k in R])
        for style in STYLES:
            sub = Mod('sub', wide.items, style)
            yield [sub, Mod('m', base + [('inst', 'sub', 'u', [], [('p%d' % k, IX('y', k)) for k in R] + [('q%d' % k, IX('x', k)) for k in R], None)])]
            yield [sub, Mod('m', base + [('inst', 'sub', 'u', [], [('q%d' % k, IX('x', k)) for k in reversed(R)] + [('p%d' % k, IX('y', k)) for k in reversed(R)], None)])]
            yield [sub, Mod('m', base + [('inst', 'sub', 'u', [], [(None, IX('y', k)) for k in R] + [(None, IX('x', k)) for k in R], None)])]
        par = [('param', 'P%d' % k, None, K(str(k % 3))) for k in R]
        for style in STYLES[:2]:
            sub = Mod('sub', par + [S('input', 'p', 3), S('output', 'q', 3), S('wire', 'o', 3)] + [('assign', q, B(p, '+', V('P%d' % (n - 1)))), ('assign', V('o'), B(V('P1'), '+', V('P%d' % (n - 2))))], style)
            for ov in ([], [(None, K(str(k % 5))) for k in R], [('P%d' % k, K(str(k % 5))) for k in R], [('P%d' % (n - 1), K('7')), ('P1', K('4'))], [(None, K(str(k % 4 + 1))) for k in R[:-1]]):
                yield [sub, Mod('m', TOP + [S('wire', 'x', 3), ('inst', 'sub', 'u', ov, [('p', CAT(a, c, s)), ('q', x)], None)])]
        yield [Mod('m', [('param', 'P0', None, K('1'))] + [('param' if k < n // 2 else 'localparam', 'P%d' % k, None, B(V('P%d' % (k - 1)), '+', K('1'))) for k in R[1:]] + TOP + [S('wire', 'x', V('P%d' % (n - 1))), ('assign', x, CAT(a, c, s))], 'old')]
        # levels
        if n < 20:
            lev = [Mod('l0', [('param', 'D', None, K('1')), S('input', 'p', 1), S('output', 'q', 1), ('assign', q, B(p, '+', V('D')))])]
            for k in R[1:]:
                lev.append(Mod('l%d' % k, [('param', 'D', None, K('1')), S('input', 'p', 1), S('output', 'q', 1), S('wire', 't', 1), ('inst', 'l%d' % (k - 1), 'u', [('D', B(V('D'), '+', K('1')))], [('p', p), ('q', t)], None), ('assign', q, U('~', t))]))
            yield lev + [Mod('m', TOP + [S('wire', 'x', 1), ('inst', 'l%d' % (n - 1), 'u', [], [('p', a), ('q', x)], None)])]
            yield [lev[0]] + lev[1:][::-1] + [Mod('m', TOP + [S('wire', 'x', 1), ('inst', 'l%d' % (n - 1), 'u', [('D', K('3'))], [(None, a), (None, x)], None), S('wire', 'y', 1), ('assign', y, V('.'.join('u' * n) + '.q'))])]
        # chains of conditions
        for v in (0, 1, n // 2, n - 1, n):
            ch = [('assign', q, U('~', p))]
            for k in reversed(R):
                ch = [('genif', B(W, '==', K(str(k))), 'b%d' % k, [('assign', q, B(p, '+', K(str(k))))], None if k < n - 1 else 'no', ch)]
            yield [Mod('sub', [('param', 'W', None, K('2')), S('input', 'p', 3), S('output', 'q', 3), wrap(ch)]), Mod('m', TOP + [S('wire', 'x', 3), ('inst', 'sub', 'u', [('W', K(str(v)))], [('p', CAT(a, c, s)), ('q', x)], None)])]
        for kind in ('and', 'or', 'xor', 'nand', 'nor', 'xnor'):
            yield [Mod('m', TOP + [S('wire', 'z'), ('gate', kind, 'g', [z] + [bit(k + n) for k in R], None)])]
            yield [Mod('m', base + [S('wire', 'z', n - 1), ('assign', x, U('~', y)), ('gate', kind, 'g', [z, y, x], (n - 1, 0))])]
        # one wide signal assigned in pieces
        yield [Mod('m', base + [('assign', IX('x', k), bit(k)) for k in R])]
        yield [Mod('m', base + [('assign', CAT(*[IX('x', k) for k in R]), y)])]
        yield [Mod('m', base + [S('wire', 'z%d' % k) for k in R] + [('assign', CAT(*[V('z%d' % k) for k in R]), y)])]


FAM = collections.OrderedDict([('connections', connections), ('parameters', parameters), ('generates', generates), ('arrays', arrays), ('hierarchies', hierarchies), ('longs', longs)])
SIMULATED = {'connections': 5, 'parameters': 4, 'generates': 4, 'arrays': 2, 'hierarchies': 2, 'longs': 2}


def conform(designs, st):
    """the reference elaborator against the simulator: every named signal at every level"""
    for part in core.chunks(designs, 30):
        jobs, want = [], []
        for jn, (key, mods) in enumerate(part):
            ref = elab.Elab(mods, mods[-1].name)
            d = ref.design
            m = sim.Machine(d)
            free, fixed = spaces(d)
            regs = {g.name for g in clocked_of(d)}
            clk = [g for g in d.sigs if g.kind == 'input' and 'clk' in g.name.lower()]
            if regs and any(it[0] == 'always' and 'edge' in it[1] and not it[1].startswith('(posedge') for it in d.items):
                continue
            free = [g for g in free if g not in clk and not (regs and 'RST' in g.name)]
            cks = {g.name for g in clk}
            vecs, refs = [], []
            for vs in itertools.product(*[domain(g) for g in free]):
                full = dict(fixed)
                full.update((g.name, v) for g, v in zip(free, vs))
                for g in clk:
                    full[g.name] = 1
                if regs:
                    full['RST'] = 1
                try:
                    rv = m.settle(full) if not regs else m.step(full)
                except dfv.Skip:
                    continue
                vecs.append({('u.' + ref.vname[n] if n in regs else n): v for n, v in full.items() if n not in cks and not isinstance(v, list)})
                refs.append(rv)
            obs = [g for g in d.sigs if g.kind not in ('input', 'integer') and not g.dims and '?' not in g.name and (not regs or g.name in regs)]
            if not vecs or not obs or not vecs[0]:
                continue
            text = '\n'.join(mm.text() for mm in mods)
            for mm in mods:
                text = sim.rename_module(text, mm.name, '%s_%d' % (mm.name, jn))
            ins = [(g.name, g.width) for g in d.sigs if g.kind == 'input']
            jobs.append((text, '%s_%d' % (mods[-1].name, jn), ins, vecs, [ref.vname[g.name] for g in obs], bool(regs)))
            want.append((key, obs, refs))
        if not jobs:
            continue
        for (key, obs, refs), got, job in zip(want, sim.simulate(jobs), jobs):
            for rv, vals, env in zip(refs, got, job[3]):
                for g, pr in zip(obs, vals):
                    st.count('simulator_comparisons')
                    if len(pr) != g.width or not sim.agrees(rv[g.name], pr, g.width):
                        raise RuntimeError('reference and simulator differ: %s: with %s, %s is %s, simulator %s\n%s' % (key, env, g.name, show(rv[g.name], g.width), pr, job[0]))


def keyed(name, th):
    for mods in FAM[name](th):
        yield name + ': ' + ' '.join(m.text().replace('\n', ' ') for m in mods), mods


def inouts():
    """connections of inout ports: (text, inner name, inner width, [(outer name, width, [(outer bit, inner bit)])])"""
    body = ['', 'assign q = p;', 'assign p = z ? 2\'d1 : 2\'bzz;']
    outer = [('inout [1:0] a', [('a', 2)]), ('inout a, inout b', [('a', 1), ('b', 1)]), ('inout [3:0] e', [('e', 4)]), ('inout [0:3] e', [('e', 4)])]
    args = {0: [('a', [('a', 0), ('a', 1)])],
            1: [('{a, b}', [('b', 0), ('a', 0)]), ('{b, a}', [('a', 0), ('b', 0)])],
            2: [('e[1:0]', [('e', 0), ('e', 1)]), ('e[3:2]', [('e', 2), ('e', 3)]), ('e[2:1]', [('e', 1), ('e', 2)]), ('{e[0], e[3]}', [('e', 3), ('e', 0)]), ('{e[2], e[1]}', [('e', 1), ('e', 2)])],
            3: [('e[0:1]', [('e', 2), ('e', 3)]), ('e[2:3]', [('e', 0), ('e', 1)]), ('{e[0], e[3]}', [('e', 0), ('e', 3)])]}
    for k, (decl, sigs) in enumerate(outer):
        for arg, bits in args[k]:
            for form in ('.p(%s), .q(y), .z(z)', '%s, y, z', '.z(z), .p(%s)'):
                for bd in body[:2]:
                    # (a port in the middle would have two drivers, and the bindings keep one: one case of it is a known finding)
                    for deep in (False, True) if (k, form[0], bd) == (0, '%', '') else (False,):
                        leaf = 'module s(inout [1:0] p, output [1:0] q, input z); %s endmodule ' % bd
                        mid = 'module t(inout [1:0] p, output [1:0] q, input z); s v(.p(p), .q(q), .z(z)); endmodule ' if deep else ''
                        text = leaf + mid + 'module m(%s, output [1:0] y, input z); %s u(%s); endmodule' % (decl, 't' if deep else 's', form % arg)
                        yield text, deep, sigs, bits


def judge_inout(text, deep, sigs, bits, st):
    """an inout port has the value of what it is connected to, and what it is connected to that of the port"""
    st.count('evaluations')
    key = 'limit inout port in the middle' if deep else 'inout: ' + text

    def look():
        an = vp.analyze(text, 'm')
        return sim.Flow(an.getTerms(), an.getBinddict())
    q = core.attempt(look)
    if q[0] == 'exc':
        return st.fail(key, 'the analysis raised %s: %s' % q[1:], {'text': text})
    flow = q[1]
    value = lambda n, env: flow.value(flow.by[n], env)
    links = []
    if deep:
        links = [('m.u.v.p', 'm.u.p')]
    for inner, out in links:
        for v in range(4):
            for x, y in ((inner, out), (out, inner)):
                st.count('transitions')
                # (below, the port of the middle is connected both upwards and downwards)
                r = core.attempt(lambda: any(flow.ev.value(b.tree, sim.Values(flow, {y: v}))[:2] == (v, 0) for b in flow.bindof.get(x, ()) if fsm.terminals(b.tree) == {y}))
                if r != ('ok', True):
                    return st.fail(key, '%s is not given the value %d of %s: %s' % (x, v, y, r[1:]), {'text': text})
    names = dict(sigs)
    for vs in itertools.product(*[range(1 << w) for _, w in sigs]):
        env = dict(zip(names, vs))
        want = sum((env[n] >> k & 1) << i for i, (n, k) in enumerate(bits))
        st.count('transitions')
        st.count('judged')
        e = {'m.' + n: v for n, v in env.items()}
        r = core.attempt(lambda: [flow.ev.value(b.tree, sim.Values(flow, e))[:3] for b in flow.bindof.get('m.u.p', ()) if fsm.terminals(b.tree) <= set(e)])
        if r != ('ok', [(want, 0, 0)]):
            return st.fail(key, 'with %s the port is given %s, not %d' % (env, r[1:], want), {'text': text})
    for v in range(4):
        for n, w in sigs:
            hit = {k: v >> i & 1 for i, (m, k) in enumerate(bits) if m == n}
            want = (sum(b << k for k, b in hit.items()), 0, sum(1 << k for k in range(w) if k not in hit))
            st.count('transitions')
            r = core.attempt(lambda: value('m.' + n, {'m.u.p': v}))
            if r[0] == 'exc' or tuple(r[1]) != want:
                return st.fail(key, 'with %d at the port %s is given %s, not %s (value, unknown, not driven)' % (v, n, r[1:], want), {'text': text})
    st.state(key)
    st.outcome(tuple(b.tostr() for n in sorted(flow.bindof) for b in flow.bindof[n]))


def run(ctx):
    th = ctx.thorough
    n = 16 if th else 8

    def work(u, st):
        f, k, of = u
        if f == 'inout':
            for c in list(inouts())[k::of]:
                judge_inout(*c, st)
            return
        if f == 'simulate':
            return conform(((key, d) for jn, (key, d) in enumerate(keyed(k, th)) if jn % (of[0] * SIMULATED[k]) == of[1] * SIMULATED[k]), st)
        for jn, (key, mods) in enumerate(keyed(f, th)):
            if jn % of == k:
                judge(mods, key, st)
                if jn // of % 7 == 0:
                    judge(mods, 'without reordering ' + key, st, noreorder=True)

    with core.quiet():
        ctx.explore([(f, k, n) for f in FAM for k in range(n)] + [('simulate', f, (6, k)) for f in FAM for k in range(6)] + [('inout', k, 4) for k in range(4)], work)
    ctx.stats.count('nontrivial', ctx.stats.n['judged'])
    ctx.stats.sample('\n'.join(m.text() for m in next(iter(generates(False)))))
    ctx.rule = ('one state is one hierarchical design elaborated by the real analyser; its instances, signals, widths, constants and clocks are compared with the reference elaborator, and its '
                'transitions are all valuations of inputs and registers, under each of which the value of every signal at every level is compared; distinct_observed_outcomes are different dataflows')
    ctx.bounds = {
        'connections': '17 input x 10 output connections x port widths 1-3 x module styles x 3 port list forms (%s)' % ('all' if th else 'a covering third of each'),
        'parameters': '6 parameter lists x 14 overrides x 3 local parameter lists x 2 styles; two-level widths; 5 constants x 9 uses',
        'generates': '11 bodies x 8 loop controls x labelled or not x in or out of generate; nested loops; 7 conditions x labels x else; cases',
        'arrays': 'instance arrays: 7 ranges x 2 widths x 3 declared ranges x 3 connections; all gate types, gate arrays',
        'inout': 'inout ports connected to a signal, parts of either direction, concatenations; through one and two levels, named and by position',
        'longs': 'sizes 9-17 (thorough to 33): loops, nested loops, instances, instance arrays, chains of instances, ports, parameters, levels, condition chains, gate inputs, pieces of one signal',
        'hierarchies': 'up to three levels, clocks through ports, references into instances, same names at all levels',
    }
    ctx.assumptions = ['the installed simulator implements Verilog elaboration (the reference elaborator is compared with it on a fixed part of the same designs, every run)',
                       'instances of an array u are named u_<index> by the analyser', 'the names of unlabelled generate blocks are not judged']
