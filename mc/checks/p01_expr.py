"""P01: the expression tree is the one the operator table of the standard prescribes.

Space: every token sequence of the bounded grammar below; model: precedence climbing over
IEEE 1364 table 5-4 (mc/expr.py); the real parser parses each sequence and the two trees are compared.
"""
import itertools

from mc import core, expr, vp
from mc.expr import BINARY, UNARY, LEVELREP

OPS = [t for t, _, _ in BINARY]
UNS = [t for t, _ in UNARY]
LONG = (5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 33)
ID = ['a', 'b', 'c', 'd', 'e']

ATOMS = ['a', '4', "4'b10z1", '"s t"', '1.5', 'a[1]', 'a[1:0]', 'a[b+c]', 'a[i][j]', 'a[i][3:0]', '{a,b}', '{a}',
         '{2{a}}', '{2{a,b}}', '{n+1{a}}', '{{a,b},c}', '{2{{a,b}}}', 'f(a)', 'f(a,b)', 'f(a+b,c?d:e)',
         '$signed(a)', '$signed(a+b)', '$time', '(a)', '((a))', 'a[b?c:d]', 'a[(b+c)*d:b-c]', '{a?b:c,d}',
         '{{2{a}},{3{b}}}', 'f(g(a),b)', 'a[b[c]]', '{a[1],a[0]}', 'a[f(b)]', '-a', '!a', '(-a)', '(a+b)']


def tok(s):
    out, i = [], 0
    sym = sorted(set(OPS) | set(UNS) | set('?:()[]{},'), key=len, reverse=True)
    while i < len(s):
        ch = s[i]
        if ch == ' ':
            i += 1
        elif ch == '"':
            j = s.index('"', i + 1) + 1
            out.append(s[i:j])
            i = j
        elif ch.isalnum() or ch in "_$'":
            j = i + 1
            while j < len(s) and (s[j].isalnum() or s[j] in "_$'."):
                j += 1
            out.append(s[i:j])
            i = j
        else:
            for t in sym:
                if s.startswith(t, i):
                    out.append(t)
                    i += len(t)
                    break
            else:
                raise ValueError(s)
    return out


def spaces(thorough):
    """Named finite spaces of token sequences (generators)."""
    A = [tok(x) for x in ATOMS]

    def binary(n, ops):
        for os in itertools.product(ops, repeat=n):
            t = [ID[0]]
            for i, o in enumerate(os):
                t += [o, ID[i + 1]]
            yield t

    def unary1():
        for u in UNS:
            yield [u, 'a']
            for v in UNS:
                yield [u, v, 'a']
                yield [u, '(', v, 'a', ')']
                for w in UNS:
                    yield [u, v, w, 'a']

    def binun():
        # one unary on every operand position, one and two binary operators
        us = [[]] + [[u] for u in UNS]
        for u, o, v in itertools.product(us, OPS, us):
            yield u + ['a', o] + v + ['b']
        for o1, o2 in itertools.product(OPS, OPS):
            for u in UNS:
                yield [u, 'a', o1, 'b', o2, 'c']
                yield ['a', o1, u, 'b', o2, 'c']
                yield ['a', o1, 'b', o2, u, 'c']

    def parens():
        for o1, o2 in itertools.product(OPS, OPS):
            yield ['(', 'a', o1, 'b', ')', o2, 'c']
            yield ['a', o1, '(', 'b', o2, 'c', ')']
            for u in UNS:
                yield [u, '(', 'a', o1, 'b', ')', o2, 'c']
        L = LEVELREP
        for o1, o2, o3 in itertools.product(L, L, L):
            yield ['(', 'a', o1, 'b', ')', o2, '(', 'c', o3, 'd', ')']
            yield ['(', 'a', o1, 'b', o2, 'c', ')', o3, 'd']
            yield ['a', o1, '(', 'b', o2, 'c', ')', o3, 'd']
            yield ['a', o1, '(', 'b', o2, 'c', o3, 'd', ')']
            yield ['a', o1, '(', 'b', o2, '(', 'c', o3, 'd', ')', ')']
            yield ['(', '(', 'a', o1, 'b', ')', o2, 'c', ')', o3, 'd']

    def ternary():
        for o in OPS:
            yield ['a', o, 'b', '?', 'c', ':', 'd']
            yield ['a', '?', 'b', o, 'c', ':', 'd']
            yield ['a', '?', 'b', ':', 'c', o, 'd']
            yield ['(', 'a', '?', 'b', ':', 'c', ')', o, 'd']
            yield ['a', o, '(', 'b', '?', 'c', ':', 'd', ')']
            for p in OPS:
                yield ['a', o, 'b', '?', 'c', p, 'd', ':', 'e']
                yield ['a', o, 'b', '?', 'c', ':', 'd', p, 'e']
                yield ['a', '?', 'b', o, 'c', ':', 'd', p, 'e']
        for u in UNS:
            yield [u, 'a', '?', 'b', ':', 'c']
            yield ['a', '?', u, 'b', ':', 'c']
            yield ['a', '?', 'b', ':', u, 'c']
        n1 = ['a', '?', 'b', ':', 'c']
        forms = [['x'], n1, ['('] + n1 + [')']]
        for c, t, f in itertools.product(forms, forms, forms):
            yield c + ['?'] + t + [':'] + f
        for c, t, f in itertools.product(forms, forms, forms):
            inner = ['p', '?'] + t + [':'] + f
            yield inner + ['?'] + c + [':'] + ['q']
            yield ['q', '?'] + inner + [':'] + c
            yield ['q', '?'] + c + [':'] + inner

    def atoms():
        for x in A:
            yield x
            for u in UNS:
                yield [u] + x
            for o in OPS:
                yield x + [o, 'z']
                yield ['z', o] + x
                yield ['{'] + x + [o, 'y', ','] + x + ['}']
                yield ['m', '['] + x + [o, 'y', ']']
                yield ['m', '['] + x + [o, 'y', ':'] + ['y', o] + x + [']']
                yield ['f', '('] + x + [',', 'y', o] + x + [')']
            for y in A:
                for o in LEVELREP:
                    yield x + [o] + y
                yield x + ['?'] + y + [':', 'z']
                yield ['z', '?'] + x + [':'] + y
                yield ['{'] + x + [','] + y + ['}']
                yield ['{', '2', '{'] + x + [','] + y + ['}', '}']

    def chains():
        # chains past the small bound: every operator repeated, and every pair of precedence levels alternating
        def chain(os):
            t = ['x0']
            for k, o in enumerate(os):
                t += [o, 'x%d' % (k + 1)]
            return t
        for n in LONG:
            for o in OPS:
                yield chain([o] * n)
            for o1, o2 in itertools.product(LEVELREP, LEVELREP):
                if o1 != o2:
                    yield chain(([o1, o2] * n)[:n])
                    yield chain([o1] * (n // 2) + [o2] * (n - n // 2))
            yield chain(([o for _, o in zip(range(n), itertools.cycle(LEVELREP))]))
            yield chain(([o for _, o in zip(range(n), itertools.cycle(LEVELREP[::-1]))]))
            for u in UNS:
                if u not in ('&', '|'):
                    yield [u] * n + ['a'] if u in ('!', '~') else [x for _ in range(n) for x in (u, '(')] + ['a'] + [')'] * n
            for o in LEVELREP:
                yield ['('] * n + chain([o]) + [')'] * n + [o, 'z']
                yield [x for k in range(n) for x in ('x%d' % k, o, '(')] + ['z'] + [')'] * n
            yield [x for k in range(n) for x in ('c%d' % k, '?', 'x%d' % k, ':')] + ['z']
            yield [x for k in range(n) for x in ('c%d' % k, '?')] + ['z'] + [x for k in range(n) for x in (':', 'y%d' % k)]
            yield ['{'] + [x for k in range(n) for x in (',', 'x%d' % k)][1:] + ['}']
            yield ['f', '('] + [x for k in range(n) for x in (',', 'x%d' % k)][1:] + [')']

    yield 'chains', chains()
    yield 'binary<=3', itertools.chain(binary(1, OPS), binary(2, OPS), binary(3, OPS))
    yield 'unary', unary1()
    yield 'binary+unary', binun()
    yield 'parentheses', parens()
    yield 'ternary', ternary()
    yield 'atoms', atoms()
    if thorough:
        yield 'binary=4', binary(4, OPS)
    else:
        yield 'binary=4(levels)', binary(4, LEVELREP)


def text(t):
    return ' '.join(t)


# every context in which the grammar admits an expression
CONTEXTS = [
    ('assign y = %s;', lambda i: i.right),
    ('initial y = %s;', lambda i: i.statement.right),
    ('always @(posedge c) y <= %s;', lambda i: i.statement.right),
    ('initial if(%s) ;', lambda i: i.statement.cond),
    ('initial while(%s) ;', lambda i: i.statement.cond),
    ('initial case(%s) 1: ; endcase', lambda i: i.statement.comp),
    ('initial case(q) %s: ; endcase', lambda i: i.statement.caselist[0].cond[0]),
    ('initial case(q) 1, %s, 2: ; endcase', lambda i: i.statement.caselist[0].cond[1]),
    ('initial for(i = %s; i < 4; i = i + 1) ;', lambda i: i.statement.pre.right),
    ('initial for(i = 0; %s; i = i + 1) ;', lambda i: i.statement.cond),
    ('initial for(i = 0; i < 4; i = %s) ;', lambda i: i.statement.post.right),
    ('initial wait(%s) ;', lambda i: i.statement.cond),
    ('initial $display(%s, 1);', lambda i: i.statement.statement.args[0]),
    ('initial #(%s) y = 1;', lambda i: i.statement.ldelay.delay),
    ('assign y[%s] = 1;', lambda i: i.left.var.ptr),
    ('assign y[%s:0] = 1;', lambda i: i.left.var.msb),
    ('assign {y[3:%s], z} = 1;', lambda i: i.left.var.list[0].lsb),
    ('wire [%s:0] w;', lambda i: i.list[0].width.msb),
    ('wire [7:%s] w, v;', lambda i: i.list[1].width.lsb),
    ('reg m [0:%s];', lambda i: i.list[0].dimensions.lengths[0].lsb),
    ('wire w = %s;', lambda i: i.list[1].right),
    ('parameter P = %s, Q = 1;', lambda i: i.list[0].value),
    ('localparam [3:0] P = %s;', lambda i: i.list[0].value),
    ('sub u(.p(%s), .q(1));', lambda i: i.instances[0].portlist[0].argname),
    ('sub u(1, %s);', lambda i: i.instances[0].portlist[1].argname),
    ('sub #(.P(%s)) u();', lambda i: i.parameterlist[0].argname),
    ('sub #(1, %s) u();', lambda i: i.instances[0].parameterlist[1].argname),
    ('function [%s:0] f; input x; f = x; endfunction', lambda i: i.retwidth.msb),
    ('generate if(%s) assign y = 1; endgenerate', lambda i: i.items[0].cond),
    ('integer k = %s;', lambda i: i.list[0].value),
]


def compare(toks_list, ctx, st, solo=False):
    fmt, get = CONTEXTS[ctx]
    src = 'module m();\n' + '\n'.join(fmt % text(t) for t in toks_list) + '\nendmodule\n'
    r = core.attempt(vp.parse, src)
    if r[0] != 'ok':
        if not solo:
            for t in toks_list:
                compare([t], ctx, st, solo=True)
        else:
            st.count('evaluations')
            st.fail('ctx%d: %s' % (ctx, text(toks_list[0])),
                    'legal expression rejected: %s: %s' % (r[1], r[2]), {'source': src})
        return
    items = vp.items(r[1])
    for t, it in zip(toks_list, items):
        want = expr.refparse(t)
        g = core.attempt(lambda: expr.of_ast(get(it)))
        got = g[1] if g[0] == 'ok' else ('?', g[1])
        st.count('evaluations')
        st.count('traces')
        st.count('transitions', len(t))
        if len(t) > 1:
            st.count('nontrivial')
        st.state((ctx > 0 and ctx, want))
        st.outcome(got)
        if got != want:
            st.fail('ctx%d: %s' % (ctx, text(t)),
                    'parsed as %r, the operator table gives %r' % (got, want),
                    {'source': 'module m();\n' + fmt % text(t) + '\nendmodule\n'})
    if len(items) != len(toks_list):
        st.fail('ctx%d batch' % ctx, 'wrong number of items', {'source': src})


BASES = ['b', '3', 'b+1', 'b*c', 'c?b:4', '(b-c)', 'b<<1', '5-b', 'b-c', 'b&c']
WIDTHS = ['1', '4', 'w', 'w+1', '2*w', '(c?1:2)', 'w-0', 'c?1:w']
IVARS = ['v', 'v[1]', 'v[b]', 'v[b][c+1]']
IVALS = [{'b': b, 'c': c, 'w': w} for b in range(4) for c in range(3) for w in (1, 2, 3)]


def ival(t, env):
    """Unbounded integer value of an index expression."""
    k = t[0]
    if k == 'id':
        return env[t[1]]
    if k == 'int':
        return int(t[1])
    if k == 'Cond':
        return ival(t[2] if ival(t[1], env) else t[3], env)
    x, y = ival(t[1], env), ival(t[2], env)
    return {'Plus': x + y, 'Minus': x - y, 'Times': x * y, 'And': x & y,
            'Sll': x << y if 0 <= y < 64 else 0}[k]


def indexed(unit, st):
    """[base +: width] and [base -: width] denote the same bits as the parsed part select."""
    for var, b, s, w, left in unit:
        sel = '%s[%s %s %s]' % (var, b, s, w)
        src = 'module m(); %s endmodule' % ('assign %s = y;' if left else 'assign y = %s;') % sel
        st.count('evaluations')
        st.count('traces')
        st.count('nontrivial')
        st.state(('idx', sel, left))
        r = core.attempt(vp.parse, src)
        if r[0] != 'ok':
            st.fail(src, 'indexed part select rejected: %s' % (r[1:],), {'source': src})
            continue
        it = vp.items(r[1])[0]
        g = core.attempt(lambda: expr.of_ast((it.left if left else it.right).var))
        got = g[1] if g[0] == 'ok' else None
        if not got or got[0] != 'part' or got[1] != expr.refparse(tok(var)):
            st.fail(src, 'tree is %r' % (got,), {'source': src})
            continue
        bt, wt = expr.refparse(tok(b)), expr.refparse(tok(w))
        for env in IVALS:
            bv, wv = ival(bt, env), ival(wt, env)
            want = (bv + wv - 1, bv) if s == '+:' else (bv, bv - wv + 1)
            have = core.attempt(lambda: (ival(got[2], env), ival(got[3], env)))
            st.count('transitions')
            st.outcome((s, have))
            if have != ('ok', want):
                st.fail(src, 'with %r the selected bits are %r, expected %r' % (env, have, want), {'source': src})
                break


def run(ctx):
    vp.parser()
    ctx.rule = ('every token sequence of the listed grammar spaces up to the operator bound; non-trivial: '
                'at least one operator, selection or call')
    units = []
    sizes = {}
    for name, gen in spaces(ctx.thorough):
        n = 0
        for ch in core.chunks(gen, 400):
            n += len(ch)
            units.append((0, ch))
        sizes[name] = n
    # all contexts x a complete two-operator/ternary/atom core
    corespace = []
    for o1, o2 in itertools.product(LEVELREP if not ctx.thorough else OPS, repeat=2):
        corespace.append(['a', o1, 'b', o2, 'c'])
    corespace += [tok(x) for x in ATOMS]
    corespace += [[u, 'a', '?', 'b', ':', 'c', '+', 'd'] for u in UNS]
    corespace += [tok('(a?b:c)?d:e'), tok('a?b?c:d:e'), tok('a<b'), tok('a<=b'), tok('(a<=b)&&c'), tok('a>=b||c')]
    for c in range(1, len(CONTEXTS)):
        for ch in core.chunks(corespace, 300):
            units.append((c, ch))
    sizes['contexts x core'] = len(corespace) * (len(CONTEXTS) - 1)
    isp = list(itertools.product(IVARS, BASES, ('+:', '-:'), WIDTHS, (False, True)))
    sizes['indexed part selects x valuations'] = len(isp) * len(IVALS)
    for ch in core.chunks(isp, 100):
        units.append(('indexed', ch))
    ctx.bounds = {'binary operators per expression': 4, 'operators': len(OPS), 'unary operators': len(UNS),
                  'contexts': len(CONTEXTS), 'space sizes': sizes}
    ctx.assumptions = ['numbers, identifiers and strings are single tokens (lexing is P06/P09)',
                       'reference: IEEE 1364-2005 table 5-4, unary operators bind tightest, ?: right-associative']

    def work(unit, st):
        c, toks = unit
        if c == 'indexed':
            return indexed(toks, st)
        compare(toks, c, st)
        if toks and c == 0:
            st.sample({'tokens': text(toks[0]), 'tree': repr(expr.refparse(toks[0]))[:200]}, 2)
    ctx.explore(units, work)
