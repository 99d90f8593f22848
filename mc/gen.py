"""Bounded-exhaustive enumerations of Verilog models (see mc/vlog.py) and of source texts
paired with the model they denote. All generators are finite and deterministic."""
import itertools

ID = ('id', 'a')


def i(t):
    return ('int', str(t))


def v(n):
    return ('id', n)


W = [None, (i(3), i(0)), (i(0), i(7)), (('Minus', v('P'), i(1)), i(0))]
WT = ['', '[3:0]', '[0:7]', '[P-1:0]']
D = [None, ((i(0), i(3)),), ((i(7), i(0)), (i(0), ('Minus', v('P'), i(1))))]
DT = ['', ' [0:3]', ' [7:0][0:P-1]']
NAMES = ['a', '\\e+1', '_b$2']


def nm(n):
    return n + ' ' if n[0] == '\\' else n


# ------------------------------------------------------------------ declarations (text, model)
SIGTYPES = [
    ('input', ['Input']), ('output', ['Output']), ('inout', ['Inout']), ('wire', ['Wire']), ('reg', ['Reg']),
    ('tri', ['Tri']), ('output reg', ['Output', 'Reg']), ('output wire', ['Output', 'Wire']),
    ('input wire', ['Input', 'Wire']), ('inout wire', ['Inout', 'Wire']), ('inout tri', ['Inout', 'Tri']),
]


def decl_items(thorough):
    """(text, model item) for every declaration form in a module body."""
    for (st, cl), sg, (w, wt) in itertools.product(SIGTYPES, ('', ' signed'), list(zip(W, WT))):
        def mk(names):
            return ('decl', tuple((c, n, w, bool(sg), d) for n, d in names for c in cl))
        dd = list(zip(D, DT))
        for n in NAMES:
            for d, dt in dd:
                yield '%s%s %s %s%s;' % (st, sg, wt, nm(n), dt), mk([(n, d)])
        for (d1, t1), (d2, t2) in itertools.product(dd, dd):
            yield '%s%s %s x%s, y%s;' % (st, sg, wt, t1, t2), mk([('x', d1), ('y', d2)])
        for (d1, t1) in dd:
            yield '%s%s %s x, y%s, \\z. ;' % (st, sg, wt, t1), mk([('x', None), ('y', d1), ('\\z.', None)])
    for s, (w, wt), sg in itertools.product('01', zip(W, WT), ('', ' signed')):
        for names in (['a'], ['a', 'b'], ['\\e+1'], ['a', '\\e+1', 'c']):
            yield ('supply%s%s %s %s;' % (s, sg, wt, ', '.join(nm(n) for n in names)),
                   ('decl', tuple(('Supply', n, s, w, bool(sg)) for n in names)))
    E = [None, i(5), ('Plus', v('P'), i(1)), ('Uminus', i(1))]
    ET = ['', ' = 5', ' = P+1', ' = -1']
    pairs = list(zip(E, ET))
    for n in NAMES:
        for e, t in pairs:
            yield 'integer %s%s;' % (nm(n), t), ('decl', (('Integer', n, e),))
    for (e1, t1), (e2, t2) in itertools.product(pairs, pairs):
        yield 'integer x%s, y%s;' % (t1, t2), ('decl', (('Integer', 'x', e1), ('Integer', 'y', e2)))
        yield 'integer x%s, y%s, z;' % (t1, t2), ('decl', (('Integer', 'x', e1), ('Integer', 'y', e2), ('Integer', 'z', None)))
    for kw, cls in (('real', 'Real'), ('genvar', 'Genvar')):
        for names in (['a'], ['a', 'b'], ['\\e+1'], ['a', 'b', '\\e+1']):
            yield '%s %s;' % (kw, ', '.join(nm(n) for n in names)), ('decl', tuple((cls, n) for n in names))
    V = [i(5), ('Plus', v('P'), i(1)), ('str', 'a b;c'), ('Cond', v('P'), i(1), i(0)), ('flt', '1.5'),
         ('cat', (i(1), i(2))), ('call', 'f', (i(3),))]
    VT = ['5', 'P+1', '"a b;c"', 'P ? 1 : 0', '1.5', '{1,2}', 'f(3)']
    for (kw, cls), sg, (w, wt) in itertools.product((('parameter', 'Parameter'), ('localparam', 'Localparam')),
                                                    ('', 'signed'), zip(W, WT)):
        if kw == 'parameter' and sg and w is None:
            pass
        for x, t in zip(V, VT):
            for n in NAMES[:2]:
                yield '%s %s %s %s = %s;' % (kw, sg, wt, nm(n), t), ('decl', ((cls, n, x, w, bool(sg)),))
        for (x, t), (y, u) in itertools.product(list(zip(V, VT))[:4], repeat=2):
            yield ('%s %s %s A = %s, B = %s;' % (kw, sg, wt, t, u),
                   ('decl', ((cls, 'A', x, w, bool(sg)), (cls, 'B', y, w, bool(sg)))))
    for kw, cls in (('parameter', 'Parameter'), ('localparam', 'Localparam')):
        w31 = (i(31), i(0))
        yield '%s integer A = 5;' % kw, ('decl', ((cls, 'A', i(5), w31, True),))
        yield '%s integer A = 5, B = 6;' % kw, ('decl', ((cls, 'A', i(5), w31, True), (cls, 'B', i(6), w31, True)))
    DL = [None, i(3), v('P'), ('Plus', v('P'), i(1)), ('flt', '1.5')]
    DLT = ['', '#3 ', '#P ', '#(P+1) ', '#1.5 ']
    A = [v('p'), ('And', v('p'), v('q')), ('cat', (v('p'), v('q')))]
    AT = ['p', 'p & q', '{p,q}']
    for (st, cl), sg, (w, wt) in itertools.product([x for x in SIGTYPES if 'wire' in x[0] or 'reg' in x[0]],
                                                   ('', ' signed'), zip(W, WT)):
        for (d1, t1), (d2, t2), (x, t), n in itertools.product(zip(DL, DLT), zip(DL, DLT), zip(A, AT), NAMES[:2]):
            if d2 and not d1 or (d1 or d2) and (t != 'p' or n != 'a' or sg):
                continue
            yield ('%s%s %s %s%s = %s%s;' % (st, sg, wt, t1, nm(n), t2, t),
                   ('decl', tuple((c, n, w, bool(sg), None) for c in cl) + (('assign', v(n), x, d1, d2),)))
    L = [v('y'), ('bit', v('y'), v('k')), ('part', v('y'), i(3), i(0)), ('cat', (v('y'), v('z'))),
         ('cat', (('bit', v('y'), i(1)), ('cat', (v('z'), ('part', v('w'), i(1), i(0)))))), v('\\e+1'),
         ('bit', ('bit', v('y'), i(1)), i(2)), ('part', ('bit', v('y'), i(1)), i(3), i(0))]
    LT = ['y', 'y[k]', 'y[3:0]', '{y,z}', '{y[1],{z,w[1:0]}}', '\\e+1 ', 'y[1][2]', 'y[1][3:0]']
    for (l, lt), (x, t), (d1, t1), (d2, t2) in itertools.product(zip(L, LT), zip(A, AT), zip(DL, DLT), zip(DL, DLT)):
        if (d2 and not d1):
            continue        # the grammar has no assign form with only an inner delay
        yield 'assign %s%s = %s%s;' % (t1, lt, t2, t), ('assign', l, x, d1, d2)
    yield '(* full_case *)', ('pragma', 'full_case', None)
    yield '(* keep = 1 *)', ('pragma', 'keep', i(1))
    yield '(* keep = "a b" *)', ('pragma', 'keep', ('str', 'a b'))


UNSUPPORTED_DECL = [
    # (text, name that must not vanish)
    ('logic a;', 'a'), ('logic [3:0] b;', 'b'),
]


# ------------------------------------------------------------------ module headers (text, params, ports)

def header_ports(thorough):
    """(text between the parentheses, ports model)."""
    yield None, ()
    yield '', ()
    for names in (['a'], ['a', 'b'], ['a', '\\e+1', 'c']):
        yield ', '.join(nm(n) for n in names), tuple(('port', n) for n in names)
    forms = []
    for (st, cl), sg, k in itertools.product(SIGTYPES, ('', ' signed'), range(3)):
        if cl[0] not in ('Input', 'Output', 'Inout'):
            continue
        forms.append((st, cl, sg, W[k], WT[k]))

    def one(f, n, d=None, dt=''):
        st, cl, sg, w, wt = f
        vs = [(c, n, w, bool(sg), d) for c in cl]
        return '%s%s %s %s%s' % (st, sg, wt, nm(n), dt), ('ioport', vs[0], vs[1] if len(vs) > 1 else None)
    for f in forms:
        for n in NAMES:
            t, m = one(f, n)
            yield t, (m,)
        if f[3] is not None:
            for d, dt in list(zip(D, DT))[1:]:
                t, m = one(f, 'a', d, dt)
                yield t, (m,)
    # every pair of forms; every form followed by inherited names; inheritance stops at the next form
    for f, g in itertools.product(forms, forms):
        t1, m1 = one(f, 'a')
        t2, m2 = one(g, 'b')
        yield '%s, %s' % (t1, t2), (m1, m2)
        _, i1 = one(f, 'c')
        _, i2 = one(g, 'd')
        yield '%s, c, %s, d' % (t1, t2), (m1, i1, m2, i2)
        if thorough:
            _, i3 = one(g, '\\e+1')
            yield '%s, %s, d, \\e+1 ' % (t1, t2), (m1, m2, i2, i3)
    for f in forms:
        t1, m1 = one(f, 'a')
        yield '%s, b' % t1, (m1, one(f, 'b')[1])
        yield '%s, b, \\e+1 ' % t1, (m1, one(f, 'b')[1], one(f, '\\e+1')[1])


def header_params(thorough):
    """(text between the parentheses, params model: tuple of decls (tuples of variables))."""
    yield None, ()
    forms = []
    for sg, (w, wt) in itertools.product(('', 'signed'), list(zip(W, WT))[:3]):
        forms.append((sg, w, wt))

    def one(f, names, vals):
        sg, w, wt = f
        return ('parameter %s %s %s' % (sg, wt, ', '.join('%s = %s' % (nm(n), t) for n, (t, _) in zip(names, vals))),
                tuple(('Parameter', n, e, w, bool(sg)) for n, (_, e) in zip(names, vals)))
    V = [('5', i(5)), ('Q+1', ('Plus', v('Q'), i(1))), ('"s; t"', ('str', 's; t')), ('8\'hFF', i("8'hFF"))]
    for f in forms:
        for val in V:
            for n in NAMES:
                t, m = one(f, [n], [val])
                yield t, (m,)
        for x, y in itertools.product(V, V):
            t, m = one(f, ['A', 'B'], [x, y])
            yield t, (m,)
        t, m = one(f, ['A', '\\e+1', 'C'], V[:3])
        yield t, (m,)
    for f, g in itertools.product(forms, forms):
        for na, nb in ((['A'], ['B']), (['A', 'C'], ['B']), (['A'], ['B', 'D']), (['A', 'C'], ['B', 'D'])):
            t1, m1 = one(f, na, V)
            t2, m2 = one(g, nb, V[1:])
            yield '%s, %s' % (t1, t2), (m1, m2)
    for f, g, h in itertools.product(forms, forms, forms):
        t1, m1 = one(f, ['A'], V)
        t2, m2 = one(g, ['B'], V)
        t3, m3 = one(h, ['C'], V)
        yield '%s, %s, %s' % (t1, t2, t3), (m1, m2, m3)
    yield 'parameter integer A = 5', ((('Parameter', 'A', i(5), (i(31), i(0)), True),),)


# ------------------------------------------------------------------ instances

ARGS = [('x', v('x')), ('x[1]', ('bit', v('x'), i(1))), ('x[3:0]', ('part', v('x'), i(3), i(0))),
        ('{x,y}', ('cat', (v('x'), v('y')))), ('x&y', ('And', v('x'), v('y'))), ('1\'b0', i("1'b0")),
        ('c?x:y', ('Cond', v('c'), v('x'), v('y'))), ('s.x', ('sid', (('s', None),), 'x')),
        ('s[1].t.x', ('sid', (('s', i(1)), ('t', None)), 'x')), ('"st"', ('str', 'st')),
        ('!x', ('Ulnot', v('x'))), ('\\e+1 ', v('\\e+1'))]


def port_lists(thorough):
    yield '', ()
    for t, e in ARGS:
        yield t, ((None, e),)
        yield '.p(%s)' % t, (('p', e),)
        yield '.\\e+1 (%s)' % t, (('\\e+1', e),)
    yield '.p()', (('p', None),)
    pool = ARGS if thorough else ARGS[:6]
    for (t, e), (u, f) in itertools.product(pool, pool):
        yield '%s, %s' % (t, u), ((None, e), (None, f))
        yield '.p(%s), .q(%s)' % (t, u), (('p', e), ('q', f))
    for t, e in pool:
        yield '.p(%s), .q()' % t, (('p', e), ('q', None))
        yield '.p(), .q(%s), .r(x)' % t, (('p', None), ('q', e), ('r', v('x')))
        yield 'x, %s, y' % t, ((None, v('x')), (None, e), (None, v('y')))


def param_args(thorough):
    yield '', ()
    yield '#()', ()
    pool = ARGS[:7] + ARGS[9:10]
    for t, e in pool:
        if t.startswith('{') or True:
            yield '#(%s)' % t, ((None, e),)
            yield '#(.P(%s))' % t, (('P', e),)
    for (t, e), (u, f) in itertools.product(pool[:5], pool[:5]):
        yield '#(%s, %s)' % (t, u), ((None, e), (None, f))
        yield '#(.P(%s), .\\e+1 (%s))' % (t, u), (('P', e), ('\\e+1', f))


def instance_items(thorough):
    ports = list(port_lists(thorough))
    params = list(param_args(thorough))
    arr = [('', None), ('[3:0]', (i(3), i(0))), ('[0:P-1]', (i(0), ('Minus', v('P'), i(1))))]
    for (pt, pm), (at, am), (qt, qm) in itertools.product(params[:4] + params[10:12], arr, ports):
        yield 'sub %s u%s(%s);' % (pt, at, qt), ('inst', 'sub', pm, (('u', am, qm),))
    for (pt, pm), (qt, qm) in itertools.product(params, ports[:5]):
        yield 'sub %s u(%s);' % (pt, qt), ('inst', 'sub', pm, (('u', None, qm),))
    for (q1, m1), (q2, m2), (a1, am1), (a2, am2) in itertools.product(ports[:12], ports[:12], arr[:2], arr[:2]):
        yield ('sub #(4) u%s(%s), w%s(%s);' % (a1, q1, a2, q2),
               ('inst', 'sub', ((None, i(4)),), (('u', am1, m1), ('w', am2, m2))))
    for mod in ('sub', 'or', '\\m+1'):
        for n in ('u', '\\e+1'):
            yield '%s %s(x, y);' % (nm(mod), nm(n)), ('inst', mod, (), ((n, None, ((None, v('x')), (None, v('y')))),))
        yield '%s (x, y);' % nm(mod), ('inst', mod, (), (('', None, ((None, v('x')), (None, v('y')))),))
        yield '%s (x, y), (z, y);' % nm(mod), ('inst', mod, (), (
            ('', None, ((None, v('x')), (None, v('y')))), ('', None, ((None, v('z')), (None, v('y'))))))
        yield '%s u(x), w(y), z(x);' % nm(mod), ('inst', mod, (), (
            ('u', None, ((None, v('x')),)), ('w', None, ((None, v('y')),)), ('z', None, ((None, v('x')),))))


# ------------------------------------------------------------------ statements (models)

SENS = [
    (('all', None),),
    (('posedge', v('clk')),), (('negedge', v('clk')),), (('level', v('a')),),
    (('posedge', v('clk')), ('negedge', v('rst'))), (('posedge', v('clk')), ('posedge', v('rst'))),
    (('level', v('a')), ('level', v('b'))), (('level', v('a')), ('level', ('bit', v('b'), i(1))), ('level', v('c'))),
    (('posedge', ('bit', v('clk'), i(0))), ('negedge', ('bit', v('rst'), i(1)))),
    (('level', ('part', v('a'), i(3), i(0))),), (('level', ('sid', (('u', None),), 'a')),),
    (('posedge', v('\\e+1')),),
]


def sens_texts(s):
    """Every spelling of one sensitivity list."""
    from mc import vlog
    if s == (('all', None),):
        return ['@*', '@(*)', '@ ( * )']
    parts = [('%s %s' % (t, vlog.rexpr(e)) if t != 'level' else vlog.rexpr(e)) for t, e in s]
    out = ['@(%s)' % ' or '.join(parts), '@(%s)' % ', '.join(parts)]
    if len(s) == 1 and s[0][0] == 'level' and s[0][1][0] in ('id',):
        out.append('@%s' % parts[0])
    return out


LV = [v('x'), ('bit', v('m'), v('k')), ('part', v('x'), i(3), i(0)), ('cat', (v('x'), ('bit', v('y'), i(0)))), v('\\e+1')]
RV = [v('a'), i("4'd3"), ('Plus', v('a'), i(1)), ('Cond', v('a'), v('b'), v('c')), ('cat', (v('a'), v('b')))]
DLY = [None, i(2), v('D'), ('Plus', v('D'), i(1)), ('flt', '1.5'), ('bit', v('D'), i(0))]


def subst(full=True):
    for op in ('ba', 'nba'):
        for l, r in itertools.product(LV, RV):
            yield (op, l, r, None, None)
        for d1, d2 in itertools.product(DLY, DLY):
            yield (op, LV[0], RV[2], d1, d2)


def leaf_statements():
    for s in subst():
        yield s
    yield ('event', ())
    for s in SENS:
        yield ('event', s)
    for d in DLY[1:]:
        yield ('delay', d)
    yield ('syscall', 'finish', ())
    yield ('syscall', 'display', (('str', 'x = %d; \\n'), v('x')))
    yield ('syscall', 'display', (('str', 'a  b'), ('Plus', v('x'), i(1)), ('Cond', v('a'), v('b'), v('c'))))
    yield ('syscall', 'write', (v('x'),))
    yield ('disable', 'blk')
    yield ('disable', '\\e+1')


X0 = ('ba', v('x'), v('a'), None, None)
X1 = ('nba', v('y'), ('Plus', v('b'), i(1)), None, None)
FOR_PRE = ('ba', v('i'), i(0), None, None)
FOR_COND = ('LessThan', v('i'), ('Plus', v('N'), i(4)))
FOR_POST = ('ba', v('i'), ('Plus', v('i'), i(1)), None, None)
FOR_POST2 = ('ba', v('\\i;'), ('Plus', v('\\i;'), i(1)), None, None)
COND = ('LessThan', v('a'), ('Plus', v('b'), i(1)))


def compounds(subs, light=False):
    """Every compound statement form over the given sub-statements (all pairs for two-place forms)."""
    subs = list(subs)
    for s in subs:
        yield ('block', None, (s,))
        yield ('if', COND, s, None)
        yield ('for', FOR_PRE, FOR_COND, FOR_POST, s)
        yield ('while', COND, s)
        yield ('wait', COND, s)
        yield ('forever', s)
        yield ('fork', (s,))
        yield ('case', 'CaseStatement', v('a'), (((i(1),), s),))
        yield ('block', 'lab', (s,))
    if light:
        return
    for s, t in itertools.product(subs, subs):
        yield ('block', None, (s, t))
        yield ('if', COND, s, t)
        yield ('case', 'CasezStatement', v('a'), (((i("4'b1??0"),), s), (None, t)))
    for s in subs:
        yield ('block', '\\b+1', (s, X1))
        yield ('fork', (s, X1))
        for c in ('CaseStatement', 'CasexStatement', 'CasezStatement', 'UniqueCaseStatement'):
            yield ('case', c, ('Plus', v('a'), i(1)), (((i(1), ('Plus', v('P'), i(1))), X0), ((v('b'),), s), (None, X1)))
            yield ('case', c, v('a'), ((None, s),))


def simple_compounds():
    """Forms with special shapes, over trivial bodies."""
    yield ('block', None, ())
    yield ('block', 'lab', ())
    yield ('fork', ())
    yield ('wait', COND, None)
    for a, b, c in itertools.product((None, FOR_PRE, ('ba', v('\\i;'), ('bit', v('\\j+'), v('k')), None, None)),
                                     (None, FOR_COND, ('LessThan', v('\\i;'), v('\\j+'))),
                                     (None, FOR_POST, FOR_POST2, ('ba', v('i'), ('call', 'f', (v('i'), v('\\j+'))), None, None))):
        yield ('for', a, b, c, X0)
    yield ('block', 'lab', (('decl', (('Reg', 'r', W[1], False, None),)), ('decl', (('Integer', 'k', None),)), X0))
    yield ('block', 'lab', (('decl', (('Reg', 'r', W[1], True, None), ('Reg', 's', W[1], True, None))), X0, X1))
    yield ('block', 'lab', (('decl', (('Integer', 'k', i(1)), ('Integer', 'l', None))), X0))
    yield ('block', 'lab', (('decl', (('Localparam', 'L', i(1), None, False),)), X0))
    yield ('block', 'lab', (('decl', (('Parameter', 'L', i(1), W[1], False),)), X0))
    yield ('block', 'lab', (('decl', (('Real', 'r'),)), X0))
    yield ('block', 'lab', (('decl', (('Wire', 'w', None, False, None),)), X0))


def list_statements():
    """Every list-valued place, over all lists up to three elements (repeats and all orders included)."""
    labels = [None, (i(1),), (i(1), i(1)), (i(2), i(1)), (i(1), v('b'), i(1)), (i("2'b1x"),), (i("2'b1X"),)]
    for k in (1, 2, 3):
        for ls in itertools.product(labels, repeat=k):
            if ls.count(None) > 1:
                continue
            for c in (('CaseStatement', 'CasexStatement', 'CasezStatement', 'UniqueCaseStatement')
                      if k < 3 else ('CaseStatement', 'CasexStatement')):
                yield ('case', c, v('a'), tuple((l, X0) for l in ls))
            yield ('case', 'CasezStatement', v('a'), tuple((l, (X0, X1, ('block', None, ()))[j]) for j, l in enumerate(ls)))
    pool = [X0, X1, ('event', ()), ('event', SENS[1]), ('delay', i(2)), ('syscall', 'finish', ()), ('if', COND, X0, X1),
            ('block', None, ())]
    for k in (1, 2, 3):
        for ss in itertools.product(pool, repeat=k):
            yield ('block', None, ss)
            if k < 3:
                yield ('fork', ss)
                yield ('block', 'lab', ss)
    args = [v('x'), v('y'), ('str', 'x'), i(1), ('Plus', v('x'), i(1))]
    for k in (1, 2, 3):
        for aa in itertools.product(args, repeat=k):
            yield ('syscall', 'display', aa)
            if ('str', 'x') not in aa:
                yield ('ba', v('x'), ('call', 'f', aa), None, None)
                yield ('ba', v('x'), ('cat', aa), None, None)
                yield ('nba', v('x'), ('rep', i(2), aa), None, None)
    lv = [v('x'), ('bit', v('x'), i(0)), ('part', v('y'), i(1), i(0))]
    for k in (1, 2, 3):
        for aa in itertools.product(lv, repeat=k):
            yield ('ba', ('cat', aa), v('a'), None, None)
    sg = [(t, e) for t in ('posedge', 'negedge', 'level') for e in (v('a'), v('b'), ('bit', v('a'), i(0)))]
    for k in (1, 2, 3):
        for ss in itertools.product(sg, repeat=k):
            if len({t == 'level' for t, _ in ss}) == 1:
                yield ('event', ss)


def statements(depth, light=False):
    """All statements up to the nesting depth (leaves at every place on level 1; a
    representative of every form below)."""
    leaves = list(leaf_statements())
    reps = [X0, X1, ('event', ()), ('delay', i(2)), ('syscall', 'finish', ()), ('event', SENS[1])]
    for s in leaves:
        yield s
    for s in simple_compounds():
        yield s
    for s in list_statements():
        yield s
    for s in compounds(leaves, light=True):
        yield s
    level = reps
    for k in range(2, depth + 1):
        nxt = []
        for s in compounds(level):
            yield s
            nxt.append(s)
        # one representative per shape of the level below (smallest member of each form/sub-form)
        seen = {}
        for s in nxt:
            seen.setdefault(shape(s), s)
        level = list(seen.values())


def shape(s, d=0):
    if not isinstance(s, tuple) or not s:
        return s
    if s[0] == 'if':
        return ('if', shape(s[2], d + 1) if d < 1 else s[2][0], None if s[3] is None else s[3][0])
    if s[0] == 'block':
        return ('block', s[1] is None, len(s[2])) + ((shape(s[2][-1], d + 1),) if s[2] and d < 1 else ())
    if s[0] == 'case':
        return ('case', s[1], len(s[3]), shape(s[3][-1][1], d + 1) if d < 1 else 0)
    if s[0] in ('for', 'while', 'wait', 'forever', 'fork'):
        return (s[0], shape(s[-1], d + 1) if d < 1 and s[0] != 'fork' else 0)
    return s[0]


def always_items():
    for c in ('Always', 'AlwaysFF', 'AlwaysComb', 'AlwaysLatch'):
        for s in SENS:
            yield ('always', c, s, X1)
            yield ('always', c, s, ('block', None, (X0, X1)))
        yield ('always', c, (), ('block', None, (X0,)))
        yield ('always', c, (), ('ba', v('clk'), ('Unot', v('clk')), i(5), None))
        yield ('always', c, (), ('forever', X0))
        yield ('always', c, (), X0)


def func_items(thorough):
    ins = [('decl', (('Input', 'a', W[1], False, None),)),
           ('decl', (('Input', 'a', None, True, None), ('Input', 'b', None, True, None))),
           ('decl', (('Reg', 'r', W[3], False, None),)), ('decl', (('Integer', 'k', None),))]
    bodies = [X0, ('block', None, (X0, X0)), ('if', COND, X0, X0), ('for', FOR_PRE, FOR_COND, FOR_POST, X0),
              ('case', 'CaseStatement', v('a'), (((i(1),), X0), (None, X0))),
              ('case', 'CasezStatement', v('a'), (((i(1),), X0), (None, X0))),
              ('case', 'CasexStatement', v('a'), (((i(1),), X0),)),
              ('while', COND, X0), ('block', 'lab', (X0,))]
    for k in (1, 2, 3):
        for ds in itertools.product(ins, repeat=k):
            for b in (bodies if k < 3 or thorough else bodies[:2]):
                for n in ('f', '\\f+1'):
                    for w in (W if k == 1 else W[:2]):
                        yield ('func', n, w or (i(0), i(0)), ds + (b,))
                    yield ('task', n, ds + (b,))
    for b in bodies:
        yield ('task', 't', (b,))


GI = [('assign', v('x'), v('a'), None, None), ('decl', (('Wire', 'w', W[1], False, None),)),
      ('inst', 'sub', (), (('u', None, ((None, v('x')),)),)), ('always', 'Always', SENS[1], X1),
      ('decl', (('Genvar', 'g'),)), ('initial', X0), ('decl', (('Localparam', 'L', i(1), None, False),)),
      ('decl', (('Integer', 'k', None),)), ('pragma', 'keep', None)]


def gen_forms(subs):
    for s in subs:
        yield ('if', COND, s, None)
        yield ('for', FOR_PRE, FOR_COND, FOR_POST, s)
        yield ('if', COND, ('block', 'lab', (s,)), None)
        yield ('for', FOR_PRE, FOR_COND, FOR_POST, ('block', 'lab', (s,)))
        yield ('for', FOR_PRE, FOR_COND, FOR_POST, ('block', None, (s, GI[0])))
    for s, t in itertools.product(subs, subs):
        yield ('if', COND, s, t)
        yield ('if', COND, ('block', None, (s,)), ('block', 'lab', (t,)))
        yield ('for', FOR_PRE, FOR_COND, FOR_POST, ('block', '\\b+1', (s, t)))


def generate_items(depth):
    yield ('gen', ())
    for s in GI:
        yield ('gen', (s,))
    for s, t in itertools.product(GI, GI):
        yield ('gen', (s, t))
    level = list(GI[:5])
    for k in range(depth):
        nxt = list(gen_forms(level))
        for s in nxt:
            yield ('gen', (s,))
        for s in nxt[:40]:
            for t in GI[:4]:
                yield ('gen', (s, t))
                yield ('gen', (t, s))
        level = [GI[0]] + [nxt[j] for j in (0, 1, 2, 3, 25, 26, 27)]
    for s, t in itertools.product(level, level):
        yield ('gen', (s, t))


# ------------------------------------------------------------------ expression models

def expr_models(depth2=True):
    """Every operator over atoms, and every operator over every operator, plus special forms."""
    from mc.expr import BINARY, UNARY
    bins = []
    for _, c, _ in BINARY:
        if c not in bins:
            bins.append(c)
    uns = []
    for _, c in UNARY:
        if c and c not in uns:
            uns.append(c)
    a, b, c, d = v('a'), v('b'), v('c'), v('d')
    one = [(u, a) for u in uns] + [(o, a, b) for o in bins] + [('Cond', a, b, c)]
    special = [a, i('4'), i("8'sb01xZ_?"), i("'hF"), ('flt', '1.5e-3'), ('flt', '.5'), ('str', 's  t'), ('str', ''), ('str', '(a)'), ('str', 'a\\"b'),
               v('\\e+1'), v('\\(a)'), ('bit', a, b), ('bit', a, v('\\e+1')), ('part', a, i(3), i(0)),
               ('part', v('\\e+1'), v('\\f-'), v('\\g')), ('bit', ('bit', a, b), c), ('part', ('bit', a, b), i(3), i(0)),
               ('cat', (a,)), ('cat', (a, b)), ('cat', (('cat', (a, b)), c)), ('rep', i(2), (a,)), ('rep', i(2), (a, b)),
               ('rep', ('Plus', v('N'), i(1)), (a,)), ('rep', i(2), (('rep', i(3), (a,)),)), ('rep', v('\\e+1'), (v('\\e+1'), b)),
               ('cat', (('rep', i(2), (a,)), b)),
               ('call', 'f', (a,)), ('call', 'f', (a, b)), ('call', '\\f+', (a, ('Plus', b, i(1)))), ('call', 'f', ()), ('sys', 'signed', (a,)),
               ('sys', 'time', ()), ('sys', 'clog2', (('Plus', a, b),)), ('sid', (('u', None),), 'x'),
               ('sid', (('u', ('Plus', b, i(1))), ('\\w+', None)), 'x'), ('sid', (('\\w+', v('k')),), '\\x-'),
               ('Cond', ('Cond', a, b, c), d, a), ('Cond', a, ('Cond', b, c, d), a), ('Cond', a, b, ('Cond', c, d, a)),
               ('Cond', a, b, ('Cond', c, d, ('Cond', a, b, c)))]
    for e in special + one:
        yield e
    if not depth2:
        return
    inner = one + special[1:]
    for e in inner:
        for u in uns:
            yield (u, e)
        for o in bins:
            yield (o, e, c)
            yield (o, c, e)
        yield ('Cond', e, b, c)
        yield ('Cond', a, e, c)
        yield ('Cond', a, b, e)
        yield ('bit', a, e)
        yield ('part', a, e, i(0))
        yield ('part', a, b, e)
        yield ('cat', (e, b))
        yield ('cat', (a, e))
        yield ('rep', i(2), (e,))
        yield ('rep', i(2), (a, e))
        if e[0] not in ('rep',):
            yield ('rep', e, (a,))
        yield ('call', 'f', (e, b))
        yield ('call', 'f', (b, e))
        yield ('sys', 'signed', (e,))
        yield ('sid', (('u', e),), 'x')


def expr_models3():
    """Operator triples: op1 over (op2 over op3) on every side."""
    from mc.expr import LEVEL
    ops = ['Power', 'Times', 'Divide', 'Plus', 'Minus', 'Sll', 'Srl', 'Sra', 'Sla', 'LessThan', 'GreaterEq', 'Eq', 'NotEql', 'And', 'Xor',
           'Xnor', 'Or', 'Land', 'Lor']
    a, b, c, d = v('a'), v('b'), v('c'), v('d')
    for p, q, r in itertools.product(ops, repeat=3):
        yield (p, (q, (r, a, b), c), d)
        yield (p, (q, a, (r, b, c)), d)
        yield (p, a, (q, (r, b, c), d))
        yield (p, a, (q, b, (r, c, d)))
        yield (p, (q, a, b), (r, c, d))


# ------------------------------------------------------------------ long and deep members

LONG = (9, 10, 11, 12, 16, 17, 33)


def long_models(build=False):
    """Every list-valued or nesting form of an item at sizes past the small-scope bound (the sizes in LONG):
    what a list or a nesting does at three elements it has to do at thirty-three."""
    def x(k, p='x'):
        return v('%s%d' % (p, k))

    def ba(k, op='ba'):
        return (op, x(k), x(k, 'a'), None, None)
    for n in LONG:
        R = range(n)
        yield ('initial', ('block', None, tuple(ba(k) for k in R)))
        yield ('initial', ('block', 'lab', tuple(ba(k, 'nba') for k in R)))
        yield ('initial', ('fork', tuple(ba(k) for k in R)))
        for c in ('CaseStatement', 'CasexStatement', 'CasezStatement', 'UniqueCaseStatement'):
            yield ('initial', ('case', c, v('a'), tuple(((i(k),), ba(k)) for k in R)))
            yield ('initial', ('case', c, v('a'), tuple(((i(k),), ba(k)) for k in R) + ((None, ba(n)),)))
            yield ('initial', ('case', c, v('a'), ((tuple(i(k) for k in R), ba(0)), (None, ba(1)))))
        for wrap in ('if', 'else', 'for', 'while', 'block', 'case', 'forever', 'lab'):
            s = ba(n)
            for k in reversed(R):
                s = {'if': ('if', x(k, 'c'), s, ba(k)), 'else': ('if', x(k, 'c'), ba(k), s),
                     'for': ('for', ('ba', x(k, 'i'), i(0), None, None), ('LessThan', x(k, 'i'), i(k)),
                             ('ba', x(k, 'i'), ('Plus', x(k, 'i'), i(1)), None, None), s),
                     'while': ('while', x(k, 'c'), s), 'block': ('block', None, (s, ba(k))),
                     'lab': ('block', 'l%d' % k, (ba(k), s)), 'forever': ('forever', s),
                     'case': ('case', 'CaseStatement', x(k, 'c'), (((i(k),), s), (None, ba(k))))}[wrap]
            yield ('initial', s)
        yield ('initial', ('syscall', 'display', (('str', 'x' * n),) + tuple(x(k) for k in R)))
        yield ('initial', ('ba', ('cat', tuple(x(k) for k in R)), v('a'), None, None))
        yield ('assign', ('cat', tuple(x(k) for k in R)), ('cat', tuple(x(k, 'a') for k in R)), None, None)
        yield ('assign', v('x'), ('rep', i(n), tuple(x(k, 'a') for k in R)), None, None)
        yield ('assign', v('x'), ('call', 'f', tuple(x(k, 'a') for k in R)), None, None)
        yield ('assign', v('x' * n), v('a' * n), None, None)
        e = v('e')
        for k in R:
            e = ('bit', x(k, 'a'), e)
        yield ('assign', v('x'), e, None, None)
        e = v('e')
        for k in R:
            e = ('cat', (e, x(k, 'a')))
        yield ('assign', v('x'), e, None, None)
        e = v('e')
        for k in R:
            e = ('call', 'f%d' % k, (e, x(k, 'a')))
        yield ('assign', v('x'), e, None, None)
        e = v('x')
        for k in R[:6]:
            e = ('bit', e, x(k, 'i'))
        for t in ('posedge', 'level'):
            yield ('always', 'Always', tuple((t, x(k)) for k in R), ba(0))
        yield ('inst', 'sub', tuple((None, i(k)) for k in R), (('u', None, tuple((None, x(k)) for k in R)),))
        yield ('inst', 'sub', tuple(('P%d' % k, i(k)) for k in R), (('u', None, tuple(('p%d' % k, x(k)) for k in R)),))
        yield ('inst', 'sub', (), (('u', None, tuple((None, x(k)) for k in R) + ((None, v('x')), (None, v('y')))),))
        yield ('inst', 'sub', (), tuple(('u%d' % k, (i(k), i(0)), ((None, x(k)),)) for k in R))
        yield ('decl', tuple(('Wire', 'w%d' % k, (i(k), i(0)), False, None) for k in R))
        yield ('decl', tuple(('Reg', 'w%d' % k, W[1], True, ((i(0), i(k)),)) for k in R))
        yield ('decl', (('Reg', 'm', W[1], False, tuple((i(0), i(k)) for k in R)),))
        yield ('decl', tuple(('Integer', 'w%d' % k, None) for k in R))
        yield ('decl', tuple(('Genvar', 'w%d' % k) for k in R))
        yield ('decl', tuple(('Parameter', 'P%d' % k, i(k), None, False) for k in R))
        yield ('decl', tuple(('Localparam', 'P%d' % k, i(k), W[1], True) for k in R))
        ins = tuple(('decl', (('Input', 'a%d' % k, W[1], False, None),)) for k in R)
        yield ('func', 'f', (i(n), i(0)), ins + (('block', None, tuple(ba(k) for k in R)),))
        yield ('task', 't', ins + (('block', None, tuple(ba(k) for k in R)),))
        yield ('gen', tuple(('assign', x(k), x(k, 'a'), None, None) for k in R))
        for wrap in ('if', 'else', 'for', 'block'):
            s = ('assign', x(n), v('a'), None, None)
            for k in reversed(R):
                o = ('assign', x(k), v('b'), None, None)
                s = {'if': ('if', x(k, 'c'), ('block', 'b%d' % k, (s, o)), o), 'else': ('if', x(k, 'c'), o, s),
                     'for': ('for', ('ba', x(k, 'i'), i(0), None, None), ('LessThan', x(k, 'i'), i(k)),
                             ('ba', x(k, 'i'), ('Plus', x(k, 'i'), i(1)), None, None), ('block', 'b%d' % k, (o, s))),
                     'block': ('block', 'b%d' % k, (s, o))}[wrap]
            if wrap != 'block':
                yield ('gen', (s,))
        for o in ('Plus', 'Minus', 'Times', 'And', 'Or', 'Xor', 'Land', 'Lor', 'Sll', 'Eq', 'LessThan', 'Divide', 'Power'):
            left, right = x(0, 'a'), x(n, 'a')
            for k in R:
                left = (o, left, x(k + 1, 'a'))
                right = (o, x(n - 1 - k, 'a'), right)
            yield ('assign', v('x'), left, None, None)
            yield ('assign', v('x'), right, None, None)
        for u in ('Unot', 'Uminus', 'Ulnot', 'Uor', 'Uand'):
            e = v('a')
            for k in R:
                e = (u, e)
            yield ('assign', v('x'), e, None, None)
        for pos in (1, 2, 3):
            e = v('a')
            for k in R:
                e = ('Cond',) + tuple(e if p == pos else x(k, 'abc'[p - 1]) for p in (1, 2, 3))
            yield ('assign', v('x'), e, None, None)


def long_modules():
    """Module headers with long port and parameter lists."""
    for n in LONG:
        R = range(n)
        yield ('module', 'm', (), tuple(('port', 'p%d' % k) for k in R), ())
        yield ('module', 'm' * n, (), tuple(('ioport', (c, 'p%d' % k, (i(k), i(0)), False, None), None)
                                            for k in R for c in (('Input', 'Output', 'Inout')[k % 3],)), ())
        yield ('module', 'm', (), tuple(('ioport', ('Output', 'p%d' % k, (i(k), i(0)), bool(k % 2), None),
                                         ('Reg', 'p%d' % k, (i(k), i(0)), bool(k % 2), None)) for k in R), ())
        yield ('module', 'm', tuple((('Parameter', 'P%d' % k, i(k), W[k % 3], bool(k % 2)),) for k in R), (('port', 'a'),), ())
        yield ('module', 'm', (), (), tuple(('assign', v('x%d' % k), v('a%d' % k), None, None) for k in R))
