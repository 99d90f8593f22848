"""P09: number, real and string literals: text, value, width and signedness."""
import itertools
import os
import subprocess
import tempfile

from mc import core, expr, vp

DIGITS = {'b': '01', 'o': '01234567', 'd': '0123456789', 'h': '0123456789abcdefABCDEF'}
SOME = {'b': '01', 'o': '0147', 'd': '0159', 'h': '09aFf'}
UNKNOWN = 'xXzZ?'
SIZES = ['', '1', '2', '4', '7', '8', '32', '33', '64']
BASE = {'b': 2, 'o': 8, 'd': 10, 'h': 16}


def meaning(text):
    """(value or None with unknown digits, width, signed) -- IEEE 1364-2005 3.5.1"""
    t = ''.join(text.split()).replace('_', '')
    if "'" not in t:
        v = int(t)
        return v, max(32, v.bit_length() + 1 if v.bit_length() > 31 else 0), True
    size, rest = t.split("'")
    signed = rest[0] in 'sS'
    rest = rest[1:] if signed else rest
    base, digits = BASE[rest[0].lower()], rest[1:]
    if any(c in UNKNOWN for c in digits):
        return None, int(size) if size else 32, signed
    v = 0
    for c in digits:
        v = v * base + '0123456789abcdef'.index(c.lower())
    w = int(size) if size else max(32, v.bit_length())
    v %= 1 << w
    return (v - (1 << w) if signed and v >> (w - 1) else v), w, signed


def grouped(digits):
    """underscores at every set of inner positions and the end"""
    n = len(digits)
    for m in range(1 << n):
        yield ''.join(c + ('_' if m >> i & 1 else '') for i, c in enumerate(digits))


def literals(th):
    """(family, text) of every literal"""
    # plain decimal numbers
    for n in range(1, 4 if not th else 5):
        for d in itertools.product('0123456789', repeat=n):
            if n < 3 or th or d[0] in '019':
                yield 'plain', ''.join(d)
    for v in [2 ** k + e for k in (7, 8, 15, 16, 30, 31) for e in (-1, 0, 1) if 2 ** k + e < 2 ** 31]:
        yield 'plain', str(v)
    for d in ('12', '100', '0012'):
        for x in grouped(d):
            yield 'plain', x
    # based numbers
    for b, s, size in itertools.product('bodh', ('', 's'), SIZES):
        for n in range(1, 3 if not th else 4):
            for d in itertools.product((DIGITS if n < (2 if not th else 3) else SOME)[b], repeat=n):
                yield 'based', "%s'%s%s%s" % (size, s, b, ''.join(d))
        if b != 'd':
            for d in itertools.product(SOME[b][-1] + '0' + UNKNOWN, repeat=2):
                if set(d) & set(UNKNOWN):
                    yield 'unknown', "%s'%s%s%s" % (size, s, b, ''.join(d))
        for d in UNKNOWN:
            yield 'unknown', "%s'%s%s%s" % (size, s, b, d)
    for b, s, size in itertools.product('bodhBODH', ('', 's', 'S'), ('', '4', '12')):
        for d in ('1', '10', '11', '101', '0001', '1111111'):
            yield 'letters', "%s'%s%s%s" % (size, s, b, d)
        for x in grouped('110'):
            yield 'letters', "%s'%s%s%s" % (size, s, b, x)
    # every value of a width, and values that do not fit
    for w in (1, 2, 3, 4, 5):
        for v in range(1 << (w + 1)):
            for s in ('', 's'):
                yield 'width', "%d'%sd%d" % (w, s, v)
                yield 'width', "%d'%sh%x" % (w, s, v)
                yield 'width', "%d'%so%o" % (w, s, v)
                yield 'width', "%d'%sb%s" % (w, s, bin(v)[2:])
    for w in (31, 32, 33, 63, 64, 65, 128):
        for v in (2 ** (w - 1) - 1, 2 ** (w - 1), 2 ** w - 1, 2 ** w, 2 ** w + 1):
            for s in ('', 's'):
                yield 'wide', "%d'%sh%x" % (w, s, v)
                yield 'wide', "%d'%sd%d" % (w, s, v)
                yield 'wide', "%d'%sb%s" % (w, s, bin(v)[2:])
                yield 'wide', "%d'%so%o" % (w, s, v)
    for v in (2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
        for s in ('', 's'):
            yield 'wide', "'%sh%x" % (s, v)
            yield 'wide', "'%sd%d" % (s, v)
    # space around the base
    for size, base, d in itertools.product(('', '4', '8', '1_2', '1_6'), ('h', 'sd', 'b', 'So', 'SH'), ('1', '1_1', 'x', '0')):
        if base == 'sd' and d == 'x':
            continue
        for a, b in itertools.product(('', ' ', '\t', '  '), repeat=2):
            if (size or not a) and (a or b or '_' in size):
                yield 'spaced', "%s%s'%s%s%s" % (size, a, base, b, d)


REALS = [a + '.' + b + e for a in ('0', '1', '12', '1_0', '007') for b in ('0', '5', '25', '2_5', '001') for e in ('', 'e0', 'e1', 'E2', 'e+2', 'e-3', 'E-1', 'e0_2')] + \
    [a + e for a in ('0', '3', '12', '1_2') for e in ('e0', 'E1', 'e+1', 'e-2')]
CHARS = ['a', ' ', '0', '/', '*', '`', "'", '%', '\\n', '\\t', '\\\\', '\\"', '\\101', '{', '#']


# -- what the real code makes of them --------------------------------------------------------
def decide(lits, st):
    """lits: [(family, text)] in one module"""
    text = 'module m;\n' + ''.join('  localparam P%d = %s;\n' % (i, t) for i, (f, t) in enumerate(lits)) + ''.join('  wire [127:0] w%d;\n  assign w%d = %s;\n' % (i, i, t) for i, (f, t) in enumerate(lits)) + 'endmodule\n'

    def run():
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer, VerilogOptimizer
        ast = vp.parse(text)
        an = vp.analyze(text, 'm')
        o = VerilogDataflowOptimizer(an.getTerms(), an.getBinddict())
        o.resolveConstant()
        consts = {str(k): v for k, v in o.getConstlist().items()}
        trees = {str(k): v[0].tree for k, v in an.getBinddict().items()}
        opt = VerilogOptimizer(an.getTerms(), o.getConstlist())
        items = [i.list[0] if i.__class__.__name__ == 'Decl' else i for i in vp.items(ast)]
        kept = [i.value.var for i in items if i.__class__.__name__ == 'Localparam']
        n = len(lits)
        return [(kept[i], consts.get('m.P%d' % i), trees.get('m.P%d' % i), trees.get('m.w%d' % i), opt.optimize(trees['m.w%d' % i])) for i in range(n)] if len(kept) == n else None
    r = core.attempt(run)
    if r[0] == 'exc' or r[1] is None:
        if len(lits) > 1:
            for i in range(0, len(lits), max(1, len(lits) // 8)):
                decide(lits[i:i + max(1, len(lits) // 8)], st)
            return
        st.count('evaluations')
        st.fail('%s: %s' % lits[0], 'the literal is not processed: %s' % (r,), {'text': text})
        return
    for (f, t), x in zip(lits, r[1]):
        st.count('evaluations')
        st.state(t)
        why = one(t, *x)
        if why:
            st.fail('%s: %s' % (f, t), why, {'text': text if len(lits) == 1 else None, 'literal': t})


def one(t, node, const, ptree, tree, opt):
    from pyverilog.dataflow import dataflow as D
    v, w, signed = meaning(t)
    if node.__class__.__name__ != 'IntConst' or node.value != t:
        return 'the tree has %s %r' % (node.__class__.__name__, getattr(node, 'value', None))
    if vp.codegen(node) != t:
        return 'the generated text is %r' % vp.codegen(node)
    for what, d in (('parameter', ptree), ('assignment', tree)):
        if not isinstance(d, D.DFIntConst) or d.value != t:
            return 'the dataflow of the %s has %r' % (what, d)
        if d.width() != w and not ("'" not in t and d.width() in (w, w - 1)):
            return 'the width is %r, not %d' % (d.width(), w)
        if v is not None and (d.eval() != v or not isinstance(d.eval(), int)):
            return 'the value is %r, not %d' % (d.eval(), v)
    if v is None:
        if isinstance(const, D.DFEvalValue) or isinstance(opt, D.DFEvalValue):
            return 'a literal with unknown digits is taken as %r' % const
        if isinstance(opt, D.DFUndefined) and opt.width not in (None, w):
            return 'the unknown value has the width %r, not %d' % (opt.width, w)
        return None
    for what, d in (('parameter', const), ('assigned value', opt)):
        if not isinstance(d, D.DFEvalValue) or d.isfloat or d.isstring or d.value != v:
            return 'the %s is %r, not %d' % (what, d, v)
        if what == 'assigned value' and d.width != w and "'" in t:
            return 'the %s has %r bits, not %d' % (what, d.width, w)
    return None


def agree(lits, st):
    """The reference says what iverilog does (literals with a known value)"""
    # (iverilog extends the sign of signed numbers without a size)
    lits = [t for f, t in lits if meaning(t)[0] is not None and not (t[0] == "'" and t[1] in 'sS')]
    if not lits:
        return
    with tempfile.TemporaryDirectory() as d:
        src, out = os.path.join(d, 'a.v'), os.path.join(d, 'a.out')
        with open(src, 'w') as f:
            f.write('module m; initial begin\n' + ''.join('$display("%%b %%0d %%0d", %s, $bits(%s), (%s * 0 - 1) < 0);\n' % (t, t, t) for t in lits) + 'end endmodule\n')
        p = subprocess.run(['iverilog', '-g2012', '-o', out, src], capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError('iverilog: ' + p.stderr[:1000])
        rows = subprocess.run(['vvp', '-n', out], capture_output=True, text=True).stdout.splitlines()
    rows = [r for r in rows if r]
    assert len(rows) == len(lits)
    for t, r in zip(lits, rows):
        bits, width, neg = r.split()
        v, w, signed = meaning(t)
        if (int(bits, 2), int(width), neg == '1') != (v % (1 << w), w, signed):
            raise RuntimeError('the reference disagrees with iverilog on %s: %s, %s' % (t, r, meaning(t)))
        st.count('traces')


def reals(lits, st):
    text = 'module m;\n' + ''.join('  localparam P%d = %s;\n' % (i, t) for i, t in enumerate(lits)) + 'endmodule\n'

    def run():
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        ast = vp.parse(text)
        an = vp.analyze(text, 'm')
        o = VerilogDataflowOptimizer(an.getTerms(), an.getBinddict())
        o.resolveConstant()
        consts = {str(k): v for k, v in o.getConstlist().items()}
        items = [i.list[0] if i.__class__.__name__ == 'Decl' else i for i in vp.items(ast)]
        return [(items[i].value.var, consts['m.P%d' % i]) for i in range(len(lits))]
    r = core.attempt(run)
    if r[0] == 'exc':
        if len(lits) > 1:
            for t in lits:
                reals([t], st)
            return
        st.count('evaluations')
        return st.fail('real: %s' % lits[0], 'the literal is not processed: %s' % (r,), {'text': text})
    for t, (node, const) in zip(lits, r[1]):
        st.count('evaluations')
        st.state(t)
        if node.__class__.__name__ != 'FloatConst' or node.value != t or vp.codegen(node) != t:
            st.fail('real: %s' % t, 'the tree has %s %r, the generated text %r' % (node.__class__.__name__, node.value, vp.codegen(node)))
        elif not const.isfloat or const.value != float(t.replace('_', '')):
            st.fail('real: %s' % t, 'the value is %r' % const)


def strings(lits, st):
    text = 'module m;\n' + ''.join('  localparam P%d = "%s";\n' % (i, t) for i, t in enumerate(lits)) + 'endmodule\n'

    def run():
        from pyverilog.dataflow.optimizer import VerilogDataflowOptimizer
        ast = vp.parse(text)
        an = vp.analyze(text, 'm')
        o = VerilogDataflowOptimizer(an.getTerms(), an.getBinddict())
        o.resolveConstant()
        consts = {str(k): v for k, v in o.getConstlist().items()}
        items = [i.list[0] if i.__class__.__name__ == 'Decl' else i for i in vp.items(ast)]
        return [(items[i].value.var, consts['m.P%d' % i]) for i in range(len(lits))]
    r = core.attempt(run)
    if r[0] == 'exc':
        if len(lits) > 1:
            for t in lits:
                strings([t], st)
            return
        st.count('evaluations')
        return st.fail('string: "%s"' % lits[0], 'the literal is not processed: %s' % (r,), {'text': text})
    for t, (node, const) in zip(lits, r[1]):
        st.count('evaluations')
        st.state('"' + t)
        if node.__class__.__name__ != 'StringConst' or node.value != t or vp.codegen(node) != '"%s"' % t:
            st.fail('string: "%s"' % t, 'the tree has %s %r, the generated text %r' % (node.__class__.__name__, node.value, vp.codegen(node)))
        elif not const.isstring or const.value != t:
            st.fail('string: "%s"' % t, 'the value is %r' % const)


def run(ctx):
    th = ctx.thorough
    n = 200
    lits, seen = [], set()
    for f, t in literals(th):
        if t not in seen:
            seen.add(t)
            lits.append((f, t))
    texts = [''.join(c) for k in range(0, ctx.pick(3, 4)) for c in itertools.product(CHARS, repeat=k)]

    def work(u, st):
        kind, xs = u
        if kind == 'int':
            decide(xs, st)
            agree(xs, st)
        elif kind == 'real':
            reals(xs, st)
        else:
            strings(xs, st)

    cut = lambda xs: [xs[i:i + n] for i in range(0, len(xs), n)]
    units = [('int', x) for x in cut(lits)] + [('real', x) for x in cut(REALS)] + [('string', x) for x in cut(texts)]
    with core.quiet():
        vp.parser()
        vp.analyze('module m; endmodule', 'm')
        ctx.explore(units, work)
    for f, t in lits[::len(lits) // 4]:
        ctx.stats.sample('%s: %s = %s' % ((f, t, meaning(t))))
    ctx.stats.count('transitions', len(seen))
    for t in seen:
        ctx.stats.outcome(meaning(t))
    ctx.rule = ('one state is one literal text, as the value of a parameter and of an assignment, taken by the real code through parsing, code generation, dataflow and constant folding and compared with the value, width '
                'and sign that a reference model reads from it; traces are literals on which the reference was run against iverilog')
    ctx.bounds = {
        'integers': 'every digit string to a length of %d (all digits of the base to %d) x 9 sizes x sign x base; unknown digits; upper and lower case; underscores in all places; all values of 1 to 5 bits and those that do not fit; '
                    'values around the limits of 31 to 128 bits; white space around the base; sizes with underscores' % (ctx.pick(2, 3), ctx.pick(1, 2)),
        'reals': '%d forms of whole part, fraction and exponent' % len(REALS), 'strings': 'every string of up to %d of %d characters and escapes' % (ctx.pick(2, 3), len(CHARS)),
    }
    ctx.assumptions = ['the value of a string as a number is outside']
