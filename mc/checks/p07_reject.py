"""P07: every text is either parsed completely or rejected with ParseError."""
import itertools
import re

from mc import core, expr, lay, vlog, vp

PRE, POST = ['module', 'm', '(', ')', ';'], ['endmodule']
SIG = {'input', 'output', 'inout', 'wire', 'reg', 'tri', 'signed', 'supply0', 'supply1', 'integer'}
BRACKETS = ['(', ')', '[', ']', '{', '}', 'begin', 'end', 'case', 'endcase', 'fork', 'join', 'function', 'endfunction',
            'task', 'endtask', 'generate', 'endgenerate', 'module', 'endmodule', 'casex', 'casez']
ILLEGAL = ['\x01', '\u20ac', '\xff', '"', '\\', "'", '`'][:4]


def canon(t):
    """Token sequence without the tokens whose presence the tree does not record: parentheses, commas, the word 'or' between
    events, a unary plus, an empty parameter list; type words of a declaration in a fixed order."""
    out, i = [], 0
    t = list(t)
    while i < len(t):
        if t[i:i + 3] == ['#', '(', ')']:
            i += 3
            continue
        x = t[i]
        if x in ('parameter', 'localparam') and t[i + 1:i + 2] == ['integer']:
            out += [x, 'signed', '[', '31', ':', '0', ']']
            i += 2
            continue
        if x in SIG:
            j = i
            while j < len(t) and t[j] in SIG:
                j += 1
            if 'integer' in t[i:j] and out[-1:] == [';'] and 'integer' in out and ';' not in out[::-1][1:out[::-1].index('integer')]:
                out.pop()       # two integer declarations one after the other: the same as one with both names
            else:
                out += sorted(t[i:j]) if 'integer' not in t[i:j] else ['integer']
            i = j
            continue
        if x == '+' and (not out or not (operand(t[i - 1]))):
            i += 1
            continue
        if x not in ('(', ')', ',', 'or'):
            out.append(x)
        i += 1
    return out


def operand(x):
    return x[0].isalnum() or x[0] in '_\\"\'' or x in (')', ']', '}')


KW = {'Input', 'Output', 'Inout', 'Wire', 'Reg', 'Tri', 'Supply'}


def ditems(items):
    """Items as token text, a declaration of several kinds, names and assignments written as one declaration."""
    out = []
    for m in items:
        if m[0] == 'gen':
            gs = [ditems([x]) if x[0] == 'decl' else [vlog.rgen(x)] for x in m[1]]
            if None in gs:
                return None
            out.append('generate %s endgenerate' % ' '.join(g[0] for g in gs))
            continue
        if m[0] != 'decl' or not m[1]:
            out.append(vlog.ritem(m))
            continue
        vs = m[1]
        c = vs[0][0]
        if c in ('Genvar', 'Real'):
            out.append('%s %s ;' % (c.lower(), ' , '.join(vlog.rname(v[1]) for v in vs)))
        elif c == 'Integer':
            out.append('integer ' + ' , '.join(vlog.rname(v[1]) + (' = ' + vlog.rexpr(v[2]) if v[2] else '') for v in vs) + ' ;')
        elif c in ('Parameter', 'Localparam') and len(set((v[0], v[3], v[4]) for v in vs)) == 1:
            out.append(vlog.rvar(vs[0]) + ''.join(' , %s = %s' % (vlog.rname(v[1]), vlog.rexpr(v[2])) for v in vs[1:]) + ' ;')
        elif c in KW:
            groups = []
            for v in vs:
                if v[0] == 'assign':
                    groups[-1].append(v)
                elif groups and v[1] == groups[-1][0][1] and v[0] not in [x[0] for x in groups[-1]] and groups[-1][-1][0] != 'assign':
                    groups[-1].append(v)
                else:
                    groups.append([v])
            heads, names = [], []
            for g in groups:
                heads.append((tuple(word(v) for v in g if v[0] != 'assign'), width(g[0]), g[0][-1 if g[0][0] == 'Supply' else 3]))
                t = vlog.rname(g[0][1])
                if g[0][0] != 'Supply':
                    t += vlog._dims(g[0][4])
                a = g[-1]
                if a[0] == 'assign':
                    t = vlog._d(a[3]) + t + ' = ' + vlog._d(a[4]) + vlog.rexpr(a[2])
                names.append(t)
            if len(set(heads)) != 1:
                return None
            ks, w, sg = heads[0]
            out.append(' '.join(ks) + (' signed' if sg else '') + ' ' + vlog._w(w) + ' , '.join(names) + ' ;')
        else:
            out.append(vlog.ritem(m))
    return out


def word(v):
    return 'supply' + v[2] if v[0] == 'Supply' else v[0].lower()


def width(v):
    return v[3] if v[0] == 'Supply' else v[2]


def restate(src, pre=5):
    """The token sequence of what the tree says, rendered independently."""
    m = vlog.read(vp.parse(src).description.definitions[0])
    head = vlog.rmodule(m[:4] + ((),))
    items = ditems(m[4])
    if items is None:
        return None
    body = lay.tokens(' '.join(items))
    h = lay.tokens(head)
    return h[:-1] + body + h[-1:]


def faithful(src, toks):
    r = core.attempt(restate, src)
    if r[0] != 'ok':
        return False, r
    if r[1] is None:
        return True, None
    a, b = canon(r[1]), canon(toks)
    # a unary plus leaves no trace in the tree; where one stands after a delay or a bracket canon cannot tell it from a binary one
    return a == b or (b.count('+') - a.count('+') == 1 and [x for x in a if x != '+'] == [x for x in b if x != '+']), r[1]


LINE = re.compile(r'line:(\d+)')


def outcome(src):
    """'tree', 'ParseError' (with message) or an escape."""
    from pyverilog.vparser.parser import ParseError
    try:
        with core.budget(20):
            vp.parse(src)
        return 'tree', None
    except ParseError as e:
        return 'ParseError', str(e)
    except core.CaseTimeout:
        return 'escape', 'no result within 20 s'
    except (Exception, SystemExit) as e:
        return 'escape', '%s: %s' % (type(e).__name__, e)


def mutate(T, thorough):
    """(kind, mutant token list, index from which it differs, must be rejected)."""
    n = len(T)
    for k in range(1, n):
        yield 'cut', T[:k], k, True
    for k in range(n):
        yield 'delete', T[:k] + T[k + 1:], k, T[k] in BRACKETS
        yield 'double', T[:k + 1] + T[k:], k + 1, T[k] in BRACKETS
        if k + 1 < n and T[k] != T[k + 1]:
            yield 'swap', T[:k] + [T[k + 1], T[k]] + T[k + 2:], k, False
    for k in range(n + 1):
        for x in BRACKETS:
            yield 'insert', T[:k] + [x] + T[k:], k, True
        for x in OTHER:
            yield 'insert', T[:k] + [x] + T[k:], k, False
    if thorough:
        for k in range(n):
            for x in OTHER + BRACKETS:
                if x != T[k]:
                    yield 'replace', T[:k] + [x] + T[k + 1:], k, x in BRACKETS and T[k] not in BRACKETS
            if k + 1 < n:
                yield 'delete2', T[:k] + T[k + 2:], k, False


OTHER = [';', ',', ':', '=', '<=', 'a', '4', '*', '!', '@', '#', '.', '?', 'else', 'if', 'wire', 'or', 'posedge', 'assign', '$',
         'initial', 'default', '+', "1'b0", '"s"', 'signed', 'parameter']


def one(tokens, st, thorough):
    T = PRE + tokens + POST
    src = ' '.join(T)
    o = outcome(src)
    if o[0] != 'tree':
        st.count('not parsed')
        return
    ok, back = faithful(src, T)
    st.count('evaluations')
    if not ok:
        st.fail(src, 'the tree of the text says %s' % (back,), {'source': src})
        return
    for kind, U, at, must in mutate(T, thorough):
        if U == T:
            continue
        text = '\n'.join(U)
        o, msg = outcome(text)
        st.count('evaluations')
        st.count('traces')
        st.count('transitions', 1)
        st.state(tuple(U))
        st.outcome((o, LINE.sub('', msg or '')))
        if o == 'escape':
            st.fail(' '.join(U), 'parsing ended with %s' % msg, {'source': text})
        elif o == 'tree':
            if must and not (kind == 'cut'):
                # a bracket that is matched elsewhere by the mutation cannot make the text legal: counts are odd
                st.fail(' '.join(U), 'accepted although %s left the brackets unbalanced' % kind, {'source': text})
                continue
            if must:
                st.fail(' '.join(U), 'an incomplete text was accepted', {'source': text})
                continue
            ok, back = faithful(text, U)
            if not ok:
                st.fail(' '.join(U), 'accepted, but the tree says: %s' % (' '.join(back) if isinstance(back, list) else back,),
                        {'source': text})
        else:
            m = LINE.search(msg)
            if m and int(m.group(1)) < at + 1:
                st.fail(' '.join(U), 'the error is reported at line %s, before the place of the error (line %d): %s' % (
                    m.group(1), at + 1, msg), {'source': text})
            if kind == 'insert' and U[at] == 'module' and 0 < at < len(U) - 1 and (
                    not m or int(m.group(1)) != at + 1 or '"module"' not in msg):
                st.fail(' '.join(U), 'the word module on line %d is the error; reported: %s' % (at + 1, msg), {'source': text})
            if kind == 'cut' and (T[at - 1][0] not in '\\') and m and int(m.group(1)) > at:
                st.fail(' '.join(U), 'an incomplete text of %d lines is reported at line %s' % (at, m.group(1)), {'source': text})
    for k in range(len(T) + 1):
        for x in ILLEGAL:
            if k and T[k - 1][0] == '\\':
                continue
            U = T[:k] + [x] + T[k:]
            text = '\n'.join(U)
            o, msg = outcome(text)
            st.count('evaluations')
            st.count('traces')
            st.count('transitions', 1)
            st.outcome((o, LINE.sub('', msg or '')))
            m = LINE.search(msg or '')
            if o != 'ParseError' or not m or int(m.group(1)) != k + 1:
                st.fail('%s [illegal %r at %d]' % (src, x, k), 'outcome %s %s (illegal character on line %d)' % (o, msg, k + 1),
                        {'source': text})


EXPR = ['a', '4', '+', '-', '!', '?', ':', '(', ')', '[', ']', '{', '}', ',', '*', '<=', '&&', '$s', '"t"', '+:']


def expressions(words, st):
    """Every token string over a small alphabet where an expression stands: accepted exactly when the reference recogniser accepts."""
    for w in words:
        src = 'module m ( ) ; assign y = %s ; endmodule' % ' '.join(w)
        try:
            want = expr.refparse(w) if w else None
        except (AssertionError, TypeError, IndexError, KeyError):
            want = None
        if loose(w):
            want = '?'
        o, msg = outcome(src)
        st.count('evaluations')
        st.count('traces')
        st.count('transitions', len(w))
        st.state(w)
        st.outcome((o, len(w)))
        if o == 'escape':
            st.fail(src, 'parsing ended with %s' % msg, {'source': src})
        elif want == '?':
            continue
        elif (o == 'tree') != (want is not None):
            st.fail(src, 'the text is %s, the parser answers %s %s' % ('legal' if want else 'not an expression', o, msg), {'source': src})
        elif want is not None:
            got = core.attempt(lambda: expr.of_ast(vp.items(vp.parse(src))[0].right))
            if not has_ipart(want) and got != ('ok', want):
                st.fail(src, 'tree %r, expected %r' % (got, want), {'source': src})


def has_ipart(t):
    return isinstance(t, tuple) and (t[:1] == ('ipart',) or any(has_ipart(x) for x in t))


def loose(w):
    """Strings whose legality the reference does not decide: calls without arguments, system calls with an empty list."""
    return any(w[i:i + 2] == ('(', ')') for i in range(len(w)))


BODY = ['a', 'b', '4', ';', ',', '(', ')', '[', ']', ':', '=', '<=', '#', '@', '*', '.', '+', '{', '}', 'wire', 'reg', 'input', 'output', 'signed',
        'integer', 'parameter', 'assign', 'always', 'initial', 'begin', 'end', 'if', 'else', 'case', 'endcase', 'for', 'posedge',
        'or', 'generate', 'endgenerate', 'function', 'endfunction', 'genvar', 'default', '$', '"s"', 'real', 'tri', 'supply0',
        'while', 'wait', 'fork', 'join', 'forever', 'disable', 'task', 'endtask', 'localparam', 'unique', 'always_ff', 'casez', 'module',
        'endmodule']
FRAME = [('module m ( ) ;', 'endmodule'), ('module m ( ) ; initial begin', 'end endmodule'), ('module m (', ') ; endmodule'),
         ('module m ( ) ; always @ (', ') x = a ; endmodule'), ('module m ( ) ; sub u (', ') ; endmodule'),
         ('module m ( ) ; initial case ( a )', 'endcase endmodule'), ('module m ( ) ; function f ;', 'endfunction endmodule'),
         ('module m ( ) ; generate', 'endgenerate endmodule'), ('module m # (', ') ( ) ; endmodule'), ('', ''),
         ('module m ( ) ; sub # (', ') u ( ) ; endmodule'), ('module m ( ) ; initial if ( a ) x = b ;', 'endmodule'),
         ('module m ( ) ; wire', '; endmodule'), ('module m ( ) ; input', '; endmodule'), ('module m ( ) ; parameter', '; endmodule'),
         ('module m ( ) ; integer', '; endmodule'), ('module m ( ) ; task t ;', 'endtask endmodule'),
         ('module m ( ) ; initial x', ';  endmodule'), ('module m ( ) ; assign', '; endmodule'),
         ('module m ( ) ; initial for (', ') ; endmodule'), ('module m ( ) ; generate for (', ') ; endgenerate endmodule')]


def bodies(unit, st):
    f, words = unit
    pre, post = FRAME[f]
    for w in words:
        toks = lay.tokens(pre) + list(w) + lay.tokens(post)
        src = ' '.join(toks)
        o, msg = outcome(src)
        st.count('evaluations')
        st.count('traces')
        st.count('transitions', len(w))
        st.state((f, w))
        st.outcome((o, f, len(w)))
        if o == 'escape':
            st.fail(src, 'parsing ended with %s' % msg, {'source': src})
        elif o == 'tree':
            st.count('accepted')
            if any(toks.count(x) != toks.count(y) for x, y in (('(', ')'), ('[', ']'), ('{', '}'), ('begin', 'end'), ('module', 'endmodule'))):
                st.fail(src, 'accepted although the brackets do not match', {'source': src})
                continue
            if toks.count('module') != 1 or f in (2, 8):
                continue
            ok, back = faithful(src, toks)
            if not ok:
                st.fail(src, 'accepted, but the tree says: %s' % (' '.join(back) if isinstance(back, list) else back,), {'source': src})


def raw(chars, st):
    """All character strings of length one and two, alone and as a module body."""
    for w in chars:
        for pre, post, known in (('', '', False), ('module m;', 'endmodule', True), ('module m; wire ', '; endmodule', True),
                                 ('module m; assign y = ', '; endmodule', True)):
            src = pre + w + post
            o, msg = outcome(src)
            st.count('evaluations')
            st.count('traces')
            st.count('transitions', 1)
            st.state(src)
            st.outcome((o, (msg or '')[:40]))
            if o == 'escape':
                st.fail(repr(src), 'parsing ended with %s' % msg, {'source': src})
            elif o == 'tree' and not known:
                st.fail(repr(src), 'accepted a text of %d characters' % len(w), {'source': src})
            elif o == 'tree' and not re.match(r'^[A-Za-z0-9_$ \t\r\n\f\\{}()\[\]+\-*/&|^!~.;"\']*$', w) and w[:1] not in ('`', '\\') and '`' not in w:
                st.fail(repr(src), 'characters that are no Verilog tokens were accepted', {'source': src})


def conflicts(st):
    """Contradictory declarations are rejected in module items and in headers."""
    words = ['input', 'output', 'inout', 'wire', 'reg', 'tri', 'signed']
    for k in (1, 2, 3):
        for ws in itertools.product(words, repeat=k):
            d = [x for x in ws if x in ('input', 'output', 'inout')]
            bad = (len(d) > 1 or len(set(ws)) < len(ws) or set(ws) == {'signed'}
                   or ('reg' in ws and ('input' in ws or 'inout' in ws)) or ('tri' in ws and ('input' in ws or 'output' in ws)))
            for src, b in (('module m; %s a; endmodule', bad), ('module m; %s [3:0] a, b; endmodule', bad),
                           ('module m(%s a); endmodule', bad or not d), ('module m(%s [3:0] a, b); endmodule', bad or not d),
                           ('module m(output z, %s a); endmodule', bad or not d)):
                src = src % ' '.join(ws)
                o, msg = outcome(src)
                st.count('evaluations')
                st.count('traces')
                st.count('transitions', k)
                st.state(src)
                st.outcome((o, bad))
                if o == 'escape' or b and o == 'tree':
                    st.fail(src, 'a contradictory declaration gives %s %s' % (o, msg), {'source': src})
    for src in ('module m; supply0 a [3:0]; endmodule', 'module m; input a = b; endmodule', 'module m; signed a = b; endmodule',
                'module m; input reg a = b; endmodule', 'module m; inout reg a = 1; endmodule', 'module m; output a = b; endmodule',
                'module m; function f; output x; f = 1; endfunction endmodule', 'module m; initial begin : b input x; end endmodule',
                'module m; function f; inout x; f = 1; endfunction endmodule', 'module m; initial begin wire x; end endmodule',
                'module m; function f; wire x; f = 1; endfunction endmodule'):
        o, msg = outcome(src)
        st.count('evaluations')
        st.state(src)
        if o != 'ParseError':
            st.fail(src, 'gives %s %s' % (o, msg), {'source': src})


def run(ctx):
    vp.parser()
    t = ctx.thorough
    texts = lay.thin(lay.corpus(ctx.pick(40, 60)), 2 if t else 1)
    texts = [x for x in texts if len(x) <= ctx.pick(22, 26)]
    units = [('mut', ch) for ch in core.chunks(texts, 3 if t else 2)]
    n = ctx.pick(3, 5)
    al = EXPR if not t else EXPR[:14]
    words = [w for k in range(0, 4) for w in itertools.product(EXPR, repeat=k)]
    units += [('expr', ch) for ch in core.chunks(words, 1000)]
    ne = len(words)
    for k in range(4, n + 1) if t else (4,):
        a = al if t else EXPR[:14]
        units += [('exprk', (k, a, x, y)) for x in a for y in a]
        ne += len(a) ** k
    nb = 0
    for f in range(len(FRAME)):
        top = 3 if t else 2
        ws = [w for k in range(0, top + 1) for w in itertools.product(BODY, repeat=k)]
        if not t and f in (0, 1, 5):
            ws += [(x,) + w for x in BODY[::1] for w in itertools.product(BODY[:8] + ['=', 'begin', 'end', 'else', 'default'], repeat=2)]
        nb += len(ws)
        units += [('body', (f, ch)) for ch in core.chunks(ws, 2000)]
    asc = [chr(c) for c in range(1, 128)] + ['\x80', '\xa0', '\u0660', '\u2028']
    rw = [''] + asc + [a + b for a in asc for b in asc if t or not (a.isalnum() and b.isalnum())]
    units += [('raw', ch) for ch in core.chunks(rw, 1000)]
    units.append(('conf', None))

    def work(u, st):
        k, ch = u
        if k == 'mut':
            for x in ch:
                one(x, st, t)
            st.sample({'mutated text': ' '.join(ch[0])})
        elif k == 'expr':
            expressions(ch, st)
        elif k == 'exprk':
            n_, a, x, y = ch
            expressions(((x, y) + w for w in itertools.product(a, repeat=n_ - 2)), st)
        elif k == 'body':
            bodies(ch, st)
        elif k == 'raw':
            raw(ch, st)
        else:
            conflicts(st)
    ctx.rule = ('all cuts, deletions, doublings, swaps and insertions on one text per token adjacency; all token strings to a length in '
                'every frame; an accepted text must be the one its tree says')
    ctx.bounds = {'texts mutated': len(texts), 'expression strings': ne, 'strings in frames': nb, 'frames': len(FRAME), 'raw strings': len(rw)}
    ctx.assumptions = ['an accepted text is judged by rendering its tree independently and comparing token sequences']
    ctx.explore(units, work)
