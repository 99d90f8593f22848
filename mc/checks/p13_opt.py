"""P13: optimising a dataflow expression never changes its value."""
import itertools
import os
import shutil
import subprocess
import tempfile

from mc import core, dfv
from pyverilog.dataflow import dataflow as D
from pyverilog.dataflow.optimizer import VerilogOptimizer
from pyverilog.utils.scope import ScopeChain, ScopeLabel


def name(s):
    return ScopeChain([ScopeLabel('m', 'module'), ScopeLabel(s, 'signal')])


T = D.DFTerminal
I = D.DFIntConst


def E(v, w=32):
    return D.DFEvalValue(v, w)


# name -> (msb, lsb)
SIG = {'a': (3, 0), 'b': (3, 0), 'c': (0, 0), 'd': (1, 0), 'e': (6, 4), 'f': (0, 2), 'g': (1, 0),
       's': (None, None), 'q': (None, None)}
NAMES = {k: name(k) for k in SIG}
BACK = {NAMES[k]: k for k in SIG}
TERM = {k: T(NAMES[k]) for k in SIG}
PAR = {'P': (5, 32, None), 'Q': (2, 32, (3, 0)), 'R': (9, 32, (7, 4)), 'Z': (0, 32, None), 'N': (6, 32, (0, 3)), 'M': (5, 32, (-1, 2))}
PNAME = {k: name(k) for k in PAR}


def terms():
    r = {}
    for k, (m, l) in SIG.items():
        r[NAMES[k]] = D.Term(NAMES[k], ('Wire',), None if m is None else E(m), None if l is None else E(l))
    for k, (v, w, rng) in PAR.items():
        r[PNAME[k]] = D.Term(PNAME[k], ('Parameter',), E(rng[0]) if rng else E(31), E(rng[1]) if rng else E(0))
    return r


def widths():
    r = {}
    for k, (m, l) in SIG.items():
        r[NAMES[k]] = (1, 0, False) if m is None else (abs(m - l) + 1, l, m < l)
    for k, (v, w, rng) in PAR.items():
        r[PNAME[k]] = (abs(rng[0] - rng[1]) + 1, rng[1], rng[0] < rng[1]) if rng else (32, 0, False)
    return r


WID = widths()
CONST = {PNAME[k]: v for k, (v, w, r) in PAR.items()}


def uses(t, out):
    if isinstance(t, D.DFTerminal):
        out.add(t.name)
    for c in t.children():
        uses(c, out)
    return out


def op(o, *n):
    return D.DFOperator(tuple(n), o)


MEMS = {}           # name of a memory -> number of words


def valuations(names, values=None):
    names = sorted(names, key=str)
    doms = []
    for n in names:
        if n in CONST:
            doms.append((CONST[n],))
        elif n in MEMS:
            doms.append(tuple(itertools.product((0, 5, 10, 15), repeat=MEMS[n])))
        else:
            doms.append(values(WID[n][0]) if values else range(1 << WID[n][0]))
    for vs in itertools.product(*doms):
        yield dict(zip(names, vs))


def few(w):
    return range(1 << w) if w < 3 else (0, 1, 2, (1 << (w - 1)) - 1, 1 << (w - 1), (1 << w) - 1)


def make():
    o = VerilogOptimizer(terms(), {})
    for k, (v, w, r) in PAR.items():
        o.setConstant(PNAME[k], E(v, w))
    return o


METHODS = ('optimize', 'optimizeConstant')


def judge(t, st, values=None, methods=METHODS, opt=None):
    """All valuations of one tree, before and after."""
    st.count('evaluations')
    before = t.tostr()
    key = show(t)
    st.state(key)
    res = []
    for m in methods:
        o = opt or make()
        r = core.attempt(getattr(o, m), t)
        if r[0] == 'exc':
            st.fail('%s %s' % (m, key), '%s raised %s: %s' % (m, r[1], r[2]), {'tree': before})
            continue
        res.append((m, r[1]))
        if t.tostr() != before:
            st.fail('%s %s' % (m, key), '%s changed the tree it was given: now %s' % (m, t.tostr()), {'tree': before})
            return
    if not res:
        return
    ev0 = dfv.Eval(WID, True)
    news = []
    for m, r in res:
        if r is not None and not isinstance(r, D.DFNode):
            st.fail('%s %s' % (m, key), '%s returned %r' % (m, r), {'tree': before})
            continue
        st.outcome('hold' if r is None else r.tostr())
        if not any(r == x for _, x, _ in news):
            news.append((m, r, dfv.Eval(WID, False)))
    for env in valuations(uses(t, set()), values):
        st.count('transitions')
        try:
            v0 = ev0.value(t, env)
        except dfv.Skip:
            st.count('outside_domain')
            continue
        st.count('judged')
        if v0[1] == dfv.mask(v0[3]):
            continue
        for m, r, ev1 in news:
            st.count('traces')
            try:
                v1 = (0, 0, dfv.mask(v0[3]), v0[3]) if r is None else ev1.value(r, env)
                ok = dfv.same(v0, v1)
            except dfv.Skip as e:
                v1, ok = 'no exact value (%s)' % e, False
            except dfv.Bad as e:
                v1, ok = 'no value (%s)' % e, False
            except ValueError as e:
                v1, ok = 'no value (%s)' % e, False
            if not ok:
                st.fail('%s %s' % (m, key), '%s gives %s; with %s the original is %s, the result %s (value, unknown, held, width)' % (
                    m, 'hold' if r is None else r.tostr(), {str(n): v for n, v in env.items()}, v0, v1), {'tree': before, 'env': str(env)})
                return


def show(t):
    """compact text of a tree"""
    if t is None:
        return '-'
    if isinstance(t, D.DFTerminal):
        return str(t.name[-1].scopename)
    if isinstance(t, D.DFOperator):
        return '%s(%s)' % (t.operator, ', '.join(show(n) for n in t.nextnodes))
    if isinstance(t, D.DFConcat):
        return '{%s}' % ', '.join(show(n) for n in t.nextnodes)
    if isinstance(t, D.DFPartselect):
        return '%s[%s:%s]' % (show(t.var), show(t.msb), show(t.lsb))
    if isinstance(t, D.DFPointer):
        return '%s[%s]' % (show(t.var), show(t.ptr))
    if isinstance(t, D.DFBranch):
        return '(%s ? %s : %s)' % (show(t.condnode), show(t.truenode), show(t.falsenode))
    if isinstance(t, D.DFSyscall):
        return '$%s(%s)' % (t.syscall, ', '.join(show(n) for n in t.nextnodes))
    if isinstance(t, (D.DFEvalValue,)):
        return '<%s/%s>' % (t.value, t.width)
    if isinstance(t, (D.DFUndefined, D.DFHighImpedance)):
        return '<%s/%s>' % (type(t).__name__[2:], t.width)
    return str(getattr(t, 'value', t))


A, B, C, DD, EE, F, G, S, Q = (TERM[k] for k in 'abcdefgsq')
CONSTS = [I(x) for x in ('0', '1', '2', '3', '7', "4'd0", "4'd1", "4'd8", "4'hF", "1'b0", "1'b1", "2'd2", "8'd8", "4'bx")]
PT = {k: T(PNAME[k]) for k in PAR}


def leaves():
    return [A, B, C, DD, S, PT['P'], PT['Q'], PT['Z']] + CONSTS


def space_ops1():
    """every operator over every pair of leaves, alone and inside a concatenation"""
    ls = leaves()
    for u in dfv.UNARY:
        for x in ls + [EE, F, PT['R'], PT['N'], PT['M']]:
            t = op(u, x)
            yield t
            yield D.DFConcat((t, I("2'd1")))
            yield D.DFConcat((I("1'd1"), t))
    for o in dfv.BINARY:
        for x in ls:
            for y in ls:
                t = op(o, x, y)
                yield t
                yield D.DFConcat((I("1'b1"), t))
                yield D.DFConcat((t, C))


def space_const():
    """operators over negative, wide and extreme constants"""
    vals = [I('0'), I('1'), I('2'), I('5'), I('31'), I('32'), I('2147483647'), op('Uminus', I('1')), op('Uminus', I('5')),
            op('Uminus', I('2')), I("8'd255"), I("8'd200"), I("64'd1"), I("2'b10"), I("16'hbeef"), I("12'hd0d"), I("33'h100000000")]
    for u in dfv.UNARY:
        for x in vals:
            yield op(u, x)
            for u2 in dfv.UNARY:
                yield op(u2, op(u, x))
    for o in dfv.BINARY:
        for x in vals:
            for y in vals:
                yield op(o, x, y)
                yield D.DFConcat((op(o, x, y), I("4'd3")))
                yield op('Ulnot', op(o, x, y))
                yield op('Plus', op(o, x, y), I('1'))


def space_ops2(ls, ops, uns):
    """two operators deep"""
    inner = [op(o, x, y) for o in ops for x in ls for y in ls] + [op(u, x) for u in uns for x in ls]
    for i in inner:
        for u in uns:
            yield op(u, i)
        for o in ops:
            for x in ls:
                yield op(o, i, x)
                yield op(o, x, i)


def bools(d, ls):
    if d == 0:
        return list(ls)
    prev = bools(d - 1, ls)
    out = list(prev)
    out += [op('Ulnot', x) for x in prev]
    out += [op(o, x, y) for o in ('Land', 'Lor') for x in prev for y in prev]
    return out


def space_bool(thorough):
    """conjunctions, disjunctions and negations over conditions"""
    ls = [C, DD, op('Eq', A, I("4'd1")), op('Eq', A, I("4'd2")), op('Eq', I("4'd2"), A), I("1'b1"), op('Unot', C), op('Unot', DD), op('NotEq', A, I("4'd1"))]
    for t in bools(1, ls):
        yield t
    lits = [x for x in ls] + [op('Ulnot', x) for x in ls]
    for o1, o2 in itertools.product(('Land', 'Lor'), repeat=2):
        for x, y, z in itertools.product(lits, repeat=3):
            yield op(o1, op(o2, x, y), z)
            if thorough:
                yield op(o1, x, op(o2, y, z))
                yield op('Ulnot', op(o1, op(o2, x, y), z))
    lits = [C, S, op('Ulnot', C), op('Ulnot', S), DD, op('Ulnot', DD)]
    for o1, o2, o3 in itertools.product(('Land', 'Lor'), repeat=3):
        for x, y, z, w in itertools.product(lits, repeat=4):
            yield op(o1, op(o2, x, y), op(o3, z, w))
    # bitwise operators with complements
    ls = [C, S, DD, A, op('Unot', C), op('Unot', DD), op('Ulnot', C), op('Ulnot', DD), op('Unot', A), I("1'b1"), I("1'b0"), I("4'd0"), I("4'd15"), I('0'), I("2'd3")]
    for o in dfv.BITWISE + ('Land', 'Lor'):
        for x in ls:
            for y in ls:
                t = op(o, x, y)
                yield t
                yield D.DFConcat((t, A))
                yield op('Plus', D.DFConcat((I("2'd0"), t)), I("6'd1"))
                for o2 in ('And', 'Or', 'Land', 'Lor'):
                    yield op(o2, t, C)
                    yield op(o2, A, t)


def sel(v, m, l):
    return D.DFPartselect(v, I(str(m)), I(str(l)))


def pieces():
    r = [A, C, DD, S, I("2'd2"), I("4'd9"), I("1'b1"), I('5')]
    r += [sel(A, m, l) for m in range(4) for l in range(m + 1)]
    r += [sel(EE, m, l) for m in range(4, 7) for l in range(4, m + 1)]
    r += [sel(F, m, l) for l in range(3) for m in range(l + 1)]
    r += [D.DFPointer(A, I('2')), D.DFPointer(EE, I('5')), D.DFPointer(F, I('1')), D.DFPointer(A, C), D.DFPointer(DD, S)]
    return r


def space_concat(thorough):
    ps = pieces()
    for x, y in itertools.product(ps, repeat=2):
        yield D.DFConcat((x, y))
    small = [C, A, I("2'd2"), I("1'b0"), sel(A, 3, 2), sel(A, 1, 0), sel(A, 2, 1), sel(EE, 5, 4), sel(EE, 6, 6), sel(F, 0, 1), sel(F, 2, 2), D.DFUndefined(2)]
    if thorough:
        small += [sel(A, 3, 3), sel(A, 0, 0), sel(F, 1, 2), sel(F, 0, 0), D.DFUndefined(1), S, sel(B, 1, 0), sel(B, 3, 2)]
    for x, y, z in itertools.product(small, repeat=3):
        yield D.DFConcat((x, y, z))
        yield D.DFConcat((D.DFConcat((x, y)), z))
        yield D.DFConcat((x, D.DFConcat((y, z))))


def space_part(thorough):
    """selections of constants, parameters, concatenations and operators"""
    objs = [A, EE, F, C, S, PT['P'], PT['R'], PT['Q'], PT['N'], PT['M'], I("4'd9"), I('13'), op('Plus', A, B), op('And', A, B), op('Uminus', I('3'))]
    for v in objs:
        for m in range(0, 8):
            for l in range(0, 8):
                yield sel(v, m, l)
                yield D.DFConcat((sel(v, m, l), C))
        for p in list(range(0, 8)) + [31, 32]:
            yield D.DFPointer(v, I(str(p)))
        for t in (C, DD, A, op('Plus', C, I('1')), op('Minus', I('1'), I('3')), PT['Z'], PT['P'], I("2'bx1")):
            yield D.DFPointer(v, t)
    # indexed selections, as the parser writes them: [base + width - 1 : base] and [base : base - width + 1]
    for v in (A, B, I("4'd9"), EE):
        for base in (C, DD, op('Plus', C, I('1')), D.DFBranch(C, I('1'), I('0'))) if v is not EE else (op('Plus', DD, I('4')),):
            for w in (1, 2):
                x = D.DFPartselect(v, op('Minus', op('Plus', base, I(str(w))), I('1')), base)
                y = D.DFPartselect(v, base, op('Plus', op('Minus', base, I(str(w))), I('1')))
                for t in (x, y):
                    yield t
                    yield D.DFConcat((t, C))
                    yield D.DFConcat((C, t, D.DFPointer(A, C)))
                    yield op('Plus', t, I('0'))
                    yield op('Times', t, I('2'))
                    yield op('Eq', t, A)
                    yield op('Land', t, I('1'))
                    yield op('Ulnot', op('Ulnot', t))
                    yield sel(D.DFConcat((C, t)), w, 0)
                    yield sel(D.DFConcat((t, DD)), 2, 1)
                    yield D.DFBranch(t, A, B)
                    yield D.DFConcat((D.DFBranch(C, t, I("%d'd1" % w)), S))
    small = [C, A, DD, I("2'd2"), I("3'd5"), sel(A, 2, 1), D.DFUndefined(2), op('And', A, B), op('Eq', A, B), D.DFBranch(C, DD, None), D.DFBranch(C, A, B), op('Sll', DD, I('1')), op('Srl', A, I('1')),
             D.DFSyscall('signed', (DD,)), op('Ulnot', A), op('Uor', DD), EE, F]
    cats = list(itertools.product(small, repeat=2))
    if thorough:
        cats += list(itertools.product(small[:7], repeat=3))
    else:
        cats += list(itertools.product([C, A, I("2'd2"), DD], repeat=3))
    for xs in cats:
        cat = D.DFConcat(xs)
        w = dfv.Eval(WID).shape(cat)[0]
        for m in range(w + 2):
            for l in range(m + 1):
                yield sel(cat, m, l)
            yield D.DFPointer(cat, I(str(m)))
            if m and not thorough and len(xs) > 2 and w > 8:
                continue
            for l in range(m + 1):
                yield D.DFConcat((sel(cat, m, l), C))
        yield D.DFPointer(cat, DD)
    # nested selections
    for m in range(4):
        for l in range(m + 1):
            for m2 in range(m - l + 1):
                for l2 in range(m2 + 1):
                    yield sel(sel(A, m, l), m2, l2)
                    yield sel(sel(I("4'd6"), m, l), m2, l2)


def space_branch(thorough):
    """branches, holds (absent branches), concatenations of branches"""
    conds = [C, S, DD, op('Eq', A, I("4'd1")), op('Ulnot', C), I('1'), I('0'), I("2'd2"), op('Eq', I('1'), I('1')), PT['P'], PT['Z'],
             op('LessThan', I('2'), I('1')), op('Land', I('1'), C), op('Lor', C, op('Ulnot', C)), op('Land', C, op('Ulnot', C)), op('Uminus', I('1'))]
    vals = [A, B, I("4'd3"), I("4'd5"), op('Plus', I("4'd1"), I("4'd2")), None]
    brs = []
    for c in conds:
        for t in vals:
            for f in vals:
                if t is None and f is None:
                    continue
                br = D.DFBranch(c, t, f)
                brs.append(br)
                yield br
    few_c = [C, S, I('1'), op('Ulnot', C), I('0')]
    for c in few_c:
        for b in brs:
            if b.condnode in few_c:
                for v in (A, I("4'd5"), None):
                    yield D.DFBranch(c, b, v)
                    yield D.DFBranch(c, v, b)
    cb = [D.DFBranch(c, t, f) for c in (C, S, op('Ulnot', C)) for t in vals[:3] + [None, sel(A, 1, 0)] for f in vals[:3] + [None, sel(A, 3, 2)] if not (t is None and f is None)]
    for x in cb:
        for y in cb:
            yield D.DFConcat((x, y))
        for y in (A, I("2'd1"), C):
            yield D.DFConcat((x, y))
            yield D.DFConcat((y, x))
    full = [x for x in cb if x.truenode is not None and x.falsenode is not None]
    for x in full:
        for o in ('Plus', 'And', 'Eq', 'Land', 'Times'):
            yield op(o, x, A)
            yield op(o, I("4'd2"), x)
        yield sel(x, 2, 1)
        yield D.DFPointer(A, x)
        yield D.DFBranch(x, A, B)
    if thorough:
        for x in cb[:24]:
            for y in cb[:24]:
                for z in cb[:24:3]:
                    yield D.DFConcat((x, y, z))


def space_sys():
    for x in (A, I("4'd9"), I('3'), op('Plus', A, I("4'd1")), D.DFConcat((C, A)), op('Uminus', I('1')), D.DFBranch(C, A, B)):
        for f in ('signed', 'unsigned'):
            t = D.DFSyscall(f, (x,))
            yield t
            yield D.DFConcat((t, C))
            yield op('Plus', t, I('0'))
            yield op('And', t, I("4'd0"))
            yield op('Land', t, t)
            yield sel(D.DFConcat((t, C)), 2, 1)
            yield D.DFBranch(C, t, t)
    for t in (D.DFSyscall('clog2', (I('8'),)), D.DFSyscall('random', ()), D.DFStringConst('"ab"'), D.DFFloatConst('1.5'),
              op('Plus', D.DFFloatConst('1.5'), I('1')), op('Eq', D.DFStringConst('"a"'), D.DFStringConst('"a"')),
              op('Eq', D.DFStringConst('"a"'), A), D.DFConcat((D.DFStringConst('"ab"'), I("4'd1"))),
              D.DFBranch(D.DFStringConst('"a"'), A, B), op('Uminus', D.DFFloatConst('1.5')), op('Ulnot', D.DFFloatConst('0.0')),
              op('Unot', D.DFStringConst('"a"')), D.DFHighImpedance(4), D.DFUndefined(3), D.DFConcat((D.DFHighImpedance(1), C)),
              op('Times', D.DFFloatConst('2.0'), A), op('Land', D.DFStringConst('"a"'), C), D.DFPointer(D.DFStringConst('"ab"'), I('1')),
              sel(D.DFStringConst('"ab"'), 3, 0), op('LessThan', D.DFStringConst('"a"'), I('3')), op('Power', D.DFFloatConst('2.0'), I('2'))):
        yield t


MARK = {'Uplus': '+', 'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&', 'Uor': '|', 'Unor': '~|', 'Uxor': '^', 'Uxnor': '~^',
        'Power': '**', 'Times': '*', 'Divide': '/', 'Mod': '%', 'Plus': '+', 'Minus': '-', 'Sll': '<<', 'Srl': '>>', 'Sla': '<<<', 'Sra': '>>>',
        'LessThan': '<', 'GreaterThan': '>', 'LessEq': '<=', 'GreaterEq': '>=', 'Eq': '==', 'NotEq': '!=', 'Eql': '===', 'NotEql': '!==',
        'And': '&', 'Xor': '^', 'Xnor': '~^', 'Or': '|', 'Land': '&&', 'Lor': '||'}


def vtext(t):
    """Verilog text of an original tree, for the simulator"""
    if isinstance(t, (D.DFPartselect, D.DFPointer)) and isinstance(t.var, D.DFTerminal) and SIG.get(str(t.var.name[-1].scopename), (0,))[0] is None:
        raise dfv.Skip('selection of a scalar')
    if isinstance(t, D.DFTerminal):
        return str(t.name[-1].scopename)
    if isinstance(t, D.DFIntConst):
        return t.value if "'" in t.value else "32'sd" + t.value
    if isinstance(t, D.DFOperator):
        n = [vtext(x) for x in t.nextnodes]
        return '(%s %s)' % (MARK[t.operator], n[0]) if len(n) == 1 else '(%s %s %s)' % (n[0], MARK[t.operator], n[1])
    if isinstance(t, D.DFConcat):
        return '{%s}' % ', '.join(vtext(n) for n in t.nextnodes)
    if isinstance(t, D.DFPartselect) and isinstance(t.var, D.DFTerminal) and not isinstance(t.msb, (D.DFIntConst, D.DFEvalValue)):
        return '%s[%s +: %d]' % (vtext(t.var), vtext(t.lsb), dfv.Eval(WID).shape(t)[0])
    if isinstance(t, D.DFPartselect) and isinstance(t.var, D.DFTerminal):
        return '%s[%s:%s]' % (vtext(t.var), vtext(t.msb), vtext(t.lsb))
    if isinstance(t, D.DFPointer) and isinstance(t.var, D.DFTerminal):
        return '%s[%s]' % (vtext(t.var), vtext(t.ptr))
    if isinstance(t, D.DFBranch) and t.truenode is not None and t.falsenode is not None:
        return '(%s ? %s : %s)' % (vtext(t.condnode), vtext(t.truenode), vtext(t.falsenode))
    if isinstance(t, D.DFSyscall):
        return '$%s(%s)' % (t.syscall, ', '.join(vtext(n) for n in t.nextnodes))
    raise dfv.Skip('no text')


def conform(trees, st):
    """The reference evaluator against the simulator: same value for every judged valuation."""
    d = tempfile.mkdtemp(dir=os.environ.get('MC_SCRATCH'))
    lines, want = [], []
    for t in trees:
        ev = dfv.Eval(WID, True)
        try:
            text = vtext(t)
            jud = []
            for env in valuations(uses(t, set()), few):
                try:
                    v = ev.value(t, env)
                except dfv.Skip:
                    continue
                if v[1] or v[2] or v[3] > 64:
                    continue
                jud.append((env, v))
        except dfv.Skip:
            continue
        for env, v in jud[:12]:
            sets = ' '.join('%s=%d;' % (BACK[n], x) for n, x in env.items() if n in BACK)
            lines.append('%s $display("%%b", {%s});' % (sets, text))
            want.append((show(t), {BACK.get(n, 'const'): x for n, x in env.items()}, format(v[0] & dfv.mask(v[3]), '0%db' % v[3])))
    src = ['module m;']
    for k, (m, l) in SIG.items():
        src.append('reg %s %s;' % ('' if m is None else '[%d:%d]' % (m, l), k))
    for k, (v, w, r) in PAR.items():
        src.append('parameter %s %s = %d;' % ('[%d:%d]' % r if r else '[31:0]', k, v))
    for i in range(0, len(lines), 200):
        src.append('initial #%d begin' % i)
        src += lines[i:i + 200]
        src.append('end')
    src.append('endmodule')
    with open(d + '/t.v', 'w') as f:
        f.write('\n'.join(src) + '\n')
    r = subprocess.run(['iverilog', '-g2005', '-o', d + '/t.out', d + '/t.v'], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('simulator rejected the reference text: ' + r.stderr[:600])
    out = subprocess.run(['vvp', '-n', d + '/t.out'], capture_output=True, text=True).stdout.split()
    shutil.rmtree(d)
    assert len(out) == len(want), (len(out), len(want))
    for (k, env, w), o in zip(want, out):
        st.count('simulator_comparisons')
        if w != o:
            raise RuntimeError('reference evaluator and simulator differ: %s %s: %s, simulator %s' % (k, env, w, o))


# numbers whose sign type matters: the value Verilog gives them, as a bit pattern
SIGNS = [
    (op('LessThan', op('Unot', I('1')), I('1')), 1, 1), (op('GreaterThan', I('1'), op('Unot', I('1'))), 1, 1),
    (op('Sra', op('Unot', I('1')), I('1')), 0xffffffff, 32), (op('Divide', I('6'), op('Unot', I('2'))), 0xfffffffe, 32),
    (op('Eq', op('Unot', I('1')), op('Uminus', I('2'))), 1, 1), (op('Xnor', I('5'), I('5')), 0xffffffff, 32),
    (op('LessThan', I("8'd1"), op('Uminus', I('1'))), 1, 1), (op('GreaterThan', op('Uminus', I('1')), I("4'd3")), 1, 1),
    (op('LessThan', I('1'), op('Uminus', I('1'))), 0, 1), (op('LessThan', op('Uminus', I('2')), I("4'sd1")), 1, 1),
    (op('Eq', I("4'd15"), op('Uminus', I("4'd1"))), 1, 1), (op('Divide', op('Uminus', I('6')), I('4')), 0xffffffff, 32),
    (op('Plus', op('Unot', I('1')), I('3')), 1, 32), (op('And', op('Unot', I('1')), I("8'd255")), 254, 32),
]


def judge_signs(st, o):
    for t, v, w in SIGNS:
        st.count('evaluations')
        st.state('sign ' + show(t))
        st.count('judged')
        r = core.attempt(lambda: o.optimize(t))
        if r[0] == 'exc':
            st.fail('sign ' + show(t), 'raised %s: %s' % r[1:3])
        elif isinstance(r[1], D.DFEvalValue) and (r[1].value & dfv.mask(w)) != v:
            st.fail('sign ' + show(t), 'optimize gives %s, Verilog %d (%d bits)' % (r[1].tostr(), v, w))


def units(thorough):
    """Each unit is (space name, stripe, stripes)."""
    names = ['ops1', 'const', 'bool', 'concat', 'part', 'branch', 'sys', 'ops2']
    n = 24 if thorough else 6
    yield ('signs', 0, 1)
    for s in ('ops1', 'const', 'bool', 'ops2', 'branch', 'concat', 'part', 'sys'):
        for i in range(8 if thorough else 1):
            yield ('simulate ' + s, i, 8 if thorough else 0)
    for s in names:
        k = 1 if s == 'sys' else (n * 2 if s in ('ops2', 'part', 'concat') else n)
        for i in range(k):
            yield (s, i, k)


def space(s, thorough):
    if s == 'ops1':
        return space_ops1()
    if s == 'const':
        return space_const()
    if s == 'bool':
        return space_bool(thorough)
    if s == 'concat':
        return space_concat(thorough)
    if s == 'part':
        return space_part(thorough)
    if s == 'branch':
        return space_branch(thorough)
    if s == 'sys':
        return space_sys()
    if thorough:
        return space_ops2([DD, C, I("2'd2"), I('1'), I("1'b0")], dfv.BINARY, dfv.UNARY)
    return space_ops2([DD, C, I("2'd2")], ('Plus', 'Minus', 'Times', 'Divide', 'Mod', 'Sll', 'Srl', 'And', 'Or', 'Xor', 'Eq', 'LessThan', 'Land', 'Lor'),
                      ('Ulnot', 'Unot', 'Uor', 'Uminus'))


def run(ctx):
    th = ctx.thorough

    def work(u, st):
        s, i, k = u
        if s.startswith('simulate '):
            ts = list(space(s[9:], th))
            n = max(1, len(ts) // 2000)
            return conform(ts[i * n // 8::n] if k else ts[::max(1, len(ts) // 300)], st)
        o = make()
        if s == 'signs':
            return judge_signs(st, o)
        for j, t in enumerate(space(s, th)):
            if j % k == i:
                judge(t, st, None if th and s != 'ops2' else few, opt=o)

    ctx.explore(list(units(th)), work)
    ctx.stats.count('nontrivial', ctx.stats.n['judged'])
    ctx.stats.sample(show(op('Land', op('Ulnot', C), sel(D.DFConcat((A, DD)), 3, 1))))
    ctx.rule = ('every dataflow tree of the listed families (one and two operators over every leaf, boolean combinations, '
                'concatenations, selections and branches with holds) under all listed valuations: the tree returned by '
                'VerilogOptimizer.optimize and optimizeConstant must have the value of the tree given, which must itself stay unchanged')
    ctx.bounds = {'operators': len(dfv.UNARY + dfv.BINARY), 'depth': 2, 'signal widths': '1..4', 'families': 8,
                  'valuations': 'all' if th else 'all below 3 bits, 6 values at 3 and 4 bits'}
    ctx.assumptions = ['exact arithmetic: valuations in which an intermediate result overflows its own width, or a negative value meets an '
                       'unsigned operation, are outside the judged domain', 'a constant with any x or z digit is unknown as a whole']
