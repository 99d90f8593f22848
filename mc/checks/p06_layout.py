"""P06: layout, comments and directives are irrelevant to the tree; line numbers are true."""
import itertools

from mc import core, lay, vp

PRE, POST = ['module', 'm', '(', ')', ';'], ['endmodule']

# what may stand between two tokens: (text, needs white space before/after it)
TRIVIA = ['\n', '\n\n\n', '\t', '    ', ' \n\t ', '/**/', '/*c*/', '/* a\n b */', '/*\n\n*/', '// c\n', '//\n', '/***/',
          '/* // */', '// /* x\n', '// */ x\n', '/* " */', '// "\n', '/* begin end ; ` */', '/*/ */', '//\\\n', '/* * / **/',
          '\n`celldefine\n', '`timescale 1ns/1ps\n', '`default_nettype wire // note\n', '/*a*//*b*/', '// x\n// y\n', '\r\n', '\f',
          '// c\r\n', '/* a\r\n b */']
PAIR = ['\n', '/* a\n b */', '// c\n', '/**/', '`resetall\n']


def nodes(n, path=()):
    """Every node of a tree with its path, over all attributes (not through children())."""
    import pyverilog.vparser.ast as A
    yield path, n
    for k, v in sorted(vars(n).items()):
        for i, x in enumerate(v if isinstance(v, (list, tuple)) else [v]):
            if isinstance(x, A.Node):
                for y in nodes(x, path + ((k, i),)):
                    yield y


KEYWORD = {
    'Always': 'always', 'AlwaysFF': 'always_ff', 'AlwaysComb': 'always_comb', 'AlwaysLatch': 'always_latch',
    'Block': 'begin', 'ParallelBlock': 'fork', 'CaseStatement': 'case', 'CasexStatement': 'casex', 'CasezStatement': 'casez',
    'UniqueCaseStatement': 'unique', 'IfStatement': 'if', 'ForStatement': 'for', 'WhileStatement': 'while',
    'WaitStatement': 'wait', 'ForeverStatement': 'forever', 'Initial': 'initial', 'Disable': 'disable',
    'Function': 'function', 'Task': 'task', 'GenerateStatement': 'generate', 'ModuleDef': 'module', 'Source': 'module',
    'Description': 'module', 'DelayStatement': '#', 'SystemCall': '$', 'Concat': '{', 'LConcat': '{', 'Repeat': '{',
    'Pragma': '(', 'PragmaEntry': '(',
    'Uminus': '-', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&', 'Uor': '|', 'Unor': '~|', 'Uxor': '^', 'Uxnor': '~^',
    'Uplus': '+',
}
ENDS = {'Block': 'end', 'ParallelBlock': 'join', 'CaseStatement': 'endcase', 'CasexStatement': 'endcase',
        'CasezStatement': 'endcase', 'UniqueCaseStatement': 'endcase', 'Function': 'endfunction', 'ModuleDef': 'endmodule',
        'GenerateStatement': 'endgenerate', 'Assign': ';', 'BlockingSubstitution': ';', 'NonblockingSubstitution': ';',
        'EventStatement': ';', 'InstanceList': ';', 'SingleStatement': ';', 'Disable': ';'}
STATEMENTS = ('IfStatement', 'ForStatement', 'WhileStatement', 'WaitStatement', 'ForeverStatement', 'Always', 'AlwaysFF',
              'AlwaysComb', 'AlwaysLatch')
LEAVES = {'Identifier': 'name', 'IntConst': 'value', 'FloatConst': 'value', 'StringConst': 'value'}
# nodes that stand for a name of a declaration or instance list: their line is between the start of the item and the name
NAMED = ('Input', 'Output', 'Inout', 'Wire', 'Reg', 'Tri', 'Supply', 'Integer', 'Real', 'Genvar', 'Parameter', 'Localparam',
         'Instance', 'Ioport', 'Port', 'Function', 'Task')


def anchors(T, base):
    """For every node: the index of the token whose line it reports (and of its end line), by inserting one line break
    at every gap; None when the reported line is not that of one token."""
    paths = [(p, n) for p, n in nodes(base)]
    table = []
    for g in range(len(T) + 1):
        r = core.attempt(vp.parse, ' '.join(T[:g]) + '\n' + ' '.join(T[g:]))
        if r[0] != 'ok':
            return None, 'line break before token %d: %s %s' % (g, r[1], r[2])
        table.append({p: (n.lineno, getattr(n, 'end_lineno', None)) for p, n in nodes(r[1])})
    out = {}
    for p, n in paths:
        pair = []
        for j in (0, 1):
            seq = [t.get(p, (None, None))[j] for t in table]
            if all(not x for x in seq):
                pair.append('none')
                continue
            k = sum(1 for x in seq if x == 2) - 1
            ok = all(x == (2 if g <= k else 1) for g, x in enumerate(seq)) and 0 <= k < len(T)
            pair.append(k if ok else 'bad %r' % (seq,))
        out[p] = tuple(pair)
    return out, None


def judge(T, base, an):
    """Rules on the anchors. Returns a list of complaints."""
    bad = []
    objs = {}
    for p, n in nodes(base):
        objs.setdefault(id(n), (p, n))
    used = {}
    desc = {}
    for p, n in sorted(nodes(base), key=lambda x: -len(x[0])):
        a = an[p][0]
        lo = hi = a if isinstance(a, int) else None
        for q, (l, h) in [(q, desc[q]) for q in desc
                          if q[:-1] == p and len(q) == len(p) + 1 and q[-1][0] != 'ldelay']:
            lo = l if lo is None else lo if l is None else min(lo, l)
            hi = h if hi is None else hi if h is None else max(hi, h)
        desc[p] = (lo, hi)
    for p, n in nodes(base):
        c = type(n).__name__
        a, e = an[p]
        if isinstance(a, str):
            if a != 'none' or c not in ('Paramlist', 'SensList', 'Portlist') or any(True for x in nodes(n) if x[1] is not n):
                bad.append('%s reports line %s' % (c, a))
            continue
        virtual = virtual_node(p, base)
        if c in LEAVES and not virtual:
            want = getattr(n, LEAVES[c])
            want = '"%s"' % want if c == 'StringConst' else want
            if c == 'Identifier' and n.scope is not None:
                want = n.scope.labellist[0].name
            if T[a] != want:
                bad.append('%s %s reports the line of %r' % (c, want, T[a]))
            if objs[id(n)][0] == p and used.setdefault((want, a), id(n)) != id(n) and not inherited(p, base):
                bad.append('two different %s report the same place' % want)
        elif c in KEYWORD:
            if T[a] != KEYWORD[c]:
                bad.append('%s reports the line of %r' % (c, T[a]))
            elif c not in ('Source', 'Description', 'ModuleDef', 'Pragma', 'PragmaEntry', 'DelayStatement') and (
                    used.setdefault((c, a), id(n)) != id(n)):
                bad.append('two different %s report the same place' % c)
        elif c in ('InstanceList', 'Instance') and T[a] != base_inst(p, base):
            bad.append('%s reports the line of %r' % (c, T[a]))
        lo = desc[p][0]
        if c not in NAMED and lo is not None and lo < a and not virtual:
            bad.append('%s reports a line (token %d %r) after that of a part of it (token %d %r)' % (c, a, T[a], lo, T[lo]))
        if c in NAMED and not virtual:
            name = n.first.name if c == 'Ioport' else n.name
            parent = an.get(p[:-1], (0,))[0]
            pos = [k for k, t in enumerate(T) if t == name]
            if name and pos and (a > max(pos) or isinstance(parent, int) and a < parent):
                bad.append('%s %s reports the line of %r' % (c, name, T[a]))
        if p:
            par = an[p[:-1]][0]
            pc = p[:-1]
            pn = get(base, pc)
            if isinstance(par, int) and a < par and type(pn).__name__ not in NAMED and not virtual and not inherited(p, base):
                bad.append('%s reports a line before that of the %s around it' % (c, type(pn).__name__))
        hi = desc[p][1]
        if isinstance(e, int):
            if c in ENDS and T[e] != ENDS[c] and not in_header(p, base):
                bad.append('%s ends on the line of %r' % (c, T[e]))
            if c in STATEMENTS and T[e] not in (';', 'end', 'endcase', 'join'):
                bad.append('%s ends on the line of %r' % (c, T[e]))
            if hi is not None and e < hi:
                bad.append('%s ends (token %d) before a part of it (token %d)' % (c, e, hi))
        elif isinstance(e, str) and e.startswith('bad'):
            bad.append('%s has end line %s' % (c, e))
    return bad


def get(base, p):
    n = base
    for k, i in p:
        v = getattr(n, k)
        n = v[i] if isinstance(v, (list, tuple)) else v
    return n


def base_inst(p, base):
    n = get(base, p)
    return n.module


def virtual_node(p, base):
    """Nodes that stand for no text of their own: the range of integer/real/genvar, function return width defaults,
    the value of a supply net, an expanded indexed part select."""
    n = base
    for k, i in p:
        c = type(n).__name__
        if c in ('Integer', 'Real', 'Genvar') and k == 'width':
            return True
        if c == 'Supply' and k == 'value':
            return True
        if c in ('Parameter', 'Localparam', 'Function') and k in ('width', 'retwidth'):
            return True
        if c in ('BlockingSubstitution', 'NonblockingSubstitution') and k == 'ldelay':
            return True         # the delay before an assignment stands before its left side
        if c == 'Decl' and type(getattr(n, k)[i]).__name__ == 'Assign':
            return True         # a net declaration assignment: its delay stands before its name
        v = getattr(n, k)
        n = v[i] if isinstance(v, (list, tuple)) else v
    return False


def inherited(p, base):
    return any(k in ('width', 'dimensions') for k, i in p)


def in_header(p, base):
    return any(k in ('pre', 'post') for k, i in p)


def expected(base, an, lines):
    """Expected (line, end line) of each node given the line of each token; used for all decorated texts."""
    out = {}
    for p, n in nodes(base):
        a, e = an[p]
        out[p] = (lines[a] if isinstance(a, int) else 0, lines[e] if isinstance(e, int) else None)
    return out


def decorate(T, put):
    """Text with put[g] inserted in gap g (before token g); returns (text, line of each token)."""
    s, line, lines = [], 1, []
    for g, t in enumerate(T + ['']):
        x = put.get(g)
        if x is None:
            x = ' ' if g else ''
        elif g and x[:1] == '/' and T[g - 1] == '/':
            x = ' ' + x
        elif g and T[g - 1][0] == '\\' and x[0] not in ' \t\n\r\f':
            x = ' ' + x
        s.append(x)
        line += x.count('\n')
        if t:
            lines.append(line)
            s.append(t)
            line += t.count('\n')
    return ''.join(s), lines


def same(T, put, dump, base, an, st, kind):
    text, lines = decorate(T, put)
    st.count('evaluations')
    st.count('traces')
    st.count('transitions', len(put))
    r = core.attempt(vp.parse, text)
    if r[0] != 'ok':
        st.fail('%s %r' % (kind, text), 'the decorated text is rejected: %s %s' % (r[1], r[2]), {'source': text})
        return
    d = vp.full(r[1])
    if d != dump:
        st.fail('%s %r' % (kind, text), 'the tree differs: %s' % vp.diff(dump, d), {'source': text})
        return
    want = expected(base, an, lines)
    for p, n in nodes(r[1]):
        got = (n.lineno, getattr(n, 'end_lineno', None))
        w = want.get(p)
        if w is None or got[0] != w[0] and not (w[0] == 0 and not got[0]) or (w[1] is not None and got[1] != w[1]):
            st.fail('%s %r' % (kind, text), '%s at %r reports lines %r, its text is on %r' % (type(n).__name__, p, got, w),
                    {'source': text})
            return


def one(tokens, st, thorough, pairs):
    T = PRE + tokens + POST
    src = ' '.join(T)
    r = core.attempt(vp.parse, src)
    if r[0] != 'ok':
        st.count('not parsed')
        return
    base = r[1]
    dump = vp.full(base)
    st.state(src)
    an, err = anchors(T, base)
    st.count('evaluations')
    st.count('traces')
    st.count('transitions', len(T) + 1)
    if err:
        st.fail('lines ' + src, err, {'source': src})
        return
    bad = judge(T, base, an)
    st.outcome(sorted((type(n).__name__, T[an[p][0]] if isinstance(an[p][0], int) else '') for p, n in nodes(base)))
    for b in bad:
        st.fail('lines %s: %s' % (src, b.split(' reports')[0]), b, {'source': src})
    triv = TRIVIA
    for g in range(len(T) + 1):
        for k, x in enumerate(triv):
            if not thorough and (g + k) % 3 and x not in ('/* a\n b */', '// c\n', '\n'):
                continue
            same(T, {g: x}, dump, base, an, st, 'gap')
    # no white space wherever the tokens do not run together
    tight = {g: '' for g in range(1, len(T)) if not lay.mergeable(T[g - 1], T[g])}
    same(T, tight, dump, base, an, st, 'tight')
    same(T, {g: '\n' for g in range(1, len(T) + 1)}, dump, base, an, st, 'loose')
    for x in TRIVIA:
        same(T, {g: x for g in range(len(T) + 1)}, dump, base, an, st, 'everywhere')
    same(T, {**tight, **{g: '/**/' for g in range(1, len(T)) if g not in tight}}, dump, base, an, st, 'tight comments')
    for g in tight:
        same(T, {g: ''}, dump, base, an, st, 'tight gap')
    if pairs:
        for g, h in itertools.combinations(range(len(T) + 1), 2):
            for x, y in itertools.product(PAIR, PAIR):
                if thorough or h - g <= 2 or (g + h) % 4 == 0:
                    same(T, {g: x, h: y}, dump, base, an, st, 'pair')


ALPHA = ['//', '/*', '*/', '`', '\\n', '\\\\', '\\"', 'a', ' ', '%d', '`include', "'", ';', 'endmodule', '`timescale 1ns/1ps', '\\t']


def strings(ws, st):
    """String literals and escaped names keep every character; what follows them is unaffected."""
    for w in ws:
        s = ''.join(w)
        src = 'module m();\ninitial $display("%s", x);\nparameter P = "%s"; /* " */\nwire z; // "\nendmodule\n' % (s, s)
        r = core.attempt(lambda: vp.items(vp.parse(src)))
        st.count('evaluations')
        st.count('traces')
        st.count('transitions', len(w))
        st.state(('str', s))
        st.outcome(s)
        g = core.attempt(lambda: (r[1][0].statement.statement.args[0].value, r[1][1].list[0].value.var.value, r[1][2].list[0].name,
                                  r[1][2].lineno, r[1][1].lineno, len(r[1])))
        if r[0] != 'ok' or g != ('ok', (s, s, 'z', 4, 3, 3)):
            st.fail('string "%s"' % s, 'read as %r' % ((r[1:] if r[0] != 'ok' else g),), {'source': src})
        if ' ' in s or not s or '\t' in s:
            continue
        e = '\\' + s
        src = 'module m();\nwire %s , b;\nassign %s\n= %s//c\n;\nsub %s (.%s (%s\t));\nendmodule\n' % (e, e, 'b', e, e, e)
        r = core.attempt(lambda: vp.items(vp.parse(src)))
        g = core.attempt(lambda: (r[1][0].list[0].name, r[1][0].list[1].name, r[1][1].left.var.name, r[1][1].end_lineno,
                                  r[1][2].lineno, r[1][2].module, r[1][2].instances[0].portlist[0].portname,
                                  r[1][2].instances[0].portlist[0].argname.name))
        st.count('evaluations')
        st.count('traces')
        if r[0] != 'ok' or g != ('ok', (e, 'b', e, 5, 6, 'sub', e, e)):
            st.fail('escaped %s' % e, 'read as %r' % ((r[1:] if r[0] != 'ok' else g),), {'source': src})


COMMENT = ['*', '/', '\n', '"', 'a', ' ', '`', '\\', '\r\n', ';']


def comments(bodies, st):
    """Comments of every content: nothing of them is in the tree, and what follows them keeps its line."""
    src, want, line = 'module m(); ', [], 1
    for k, s in enumerate(bodies):
        c = ('//' + s + '\n') if k % 2 and '\n' not in s else ('/*' + s + '*/')
        src += 'assign y' + c + ' = b%d; ' % k
        want.append(('y', line, line + c.count('\n'), 'b%d' % k))
        line += c.count('\n')
        st.state(('comment', c))
    src += 'wire z; endmodule'
    st.count('evaluations')
    st.count('traces')
    st.count('transitions', len(bodies))

    def read():
        its = vp.items(vp.parse(src))
        return [(i.left.var.name, i.lineno, i.right.lineno, i.right.var.name) for i in its[:-1]] + [(its[-1].list[0].name, its[-1].lineno)]
    r = core.attempt(read)
    want.append(('z', line))
    st.outcome(r)
    if r != ('ok', want):
        before = st.n['raw_failures']
        if len(bodies) > 2:
            for b in bodies:
                comments([b], st)
                comments([' ', b], st)
        if st.n['raw_failures'] == before:
            bad = r[1:] if r[0] != 'ok' else next((g, w) for g, w in zip(r[1] + [None], want + [None]) if g != w)
            st.fail('comment %r' % (bodies[-1],), 'read as %r' % (bad,) if r[0] != 'ok' else 'read as %r, expected %r' % bad, {'source': src})


def comment_bodies(thorough):
    for n in range(6 if thorough else 5):
        for w in itertools.product(COMMENT, repeat=n):
            s = ''.join(w)
            # (an end of the comment in its body; a star before the end is part of it)
            if '*/' not in s:
                yield s


def directives(st):
    """Directive lines are recorded with the line they stand on, in order; default_nettype governs the modules after it."""
    pool = ['`celldefine', '`timescale 1ns / 1ps', '`default_nettype none', '`default_nettype wire // c', '`default_nettype\ttri /* c */',
            '`line 3 "a.v" 0']
    from pyverilog.vparser.parser import VerilogParser      # noqa
    for k in (1, 2, 3):
        for ds in itertools.product(pool, repeat=k):
            for lead in ('', '\n', '/* a\n */ '):
                src, want, cur, line, mods = '', [], 'wire', 1, []
                for n, d in enumerate(ds):
                    src += lead
                    line += lead.count('\n')
                    want.append((line, d + '\n'))
                    src += d + '\n'
                    line += 1
                    if d.startswith('`default_nettype'):
                        cur = d.split()[1]
                    src += 'module m%d; endmodule\n' % n
                    mods.append((cur, line))
                    line += 1
                p = vp.parser()
                r = core.attempt(lambda: [(x.default_nettype, x.lineno) for x in p.parse(src).description.definitions])
                got = core.attempt(lambda: [tuple(x) for x in p.get_directives()])
                st.count('evaluations')
                st.count('traces')
                st.count('transitions', k)
                st.state(('dir', ds, lead))
                st.outcome((r, got))
                if r != ('ok', mods):
                    st.fail('directives %r' % src, 'modules have %r, expected %r' % (r, mods), {'source': src})
                if got != ('ok', want):
                    st.fail('directives %r' % src, 'recorded %r, expected %r' % (got, want), {'source': src})


def run(ctx):
    vp.parser()
    t = ctx.thorough
    texts = lay.corpus(ctx.pick(40, 60))
    if not t:
        texts = lay.thin(texts, 2)
    short = set(id(x) for x in lay.thin([x for x in texts if len(x) <= 12], 1))
    units = [('text', ch) for ch in core.chunks(texts, 6)]
    ws = [w for k in range(0, ctx.pick(3, 4)) for w in itertools.product(ALPHA, repeat=k)]
    units += [('str', ch) for ch in core.chunks(ws, 100)]
    units.append(('dir', None))
    cs = list(comment_bodies(t))
    units += [('com', ch) for ch in core.chunks(cs, 80)]

    def work(u, st):
        k, ch = u
        if k == 'text':
            for x in ch:
                one(x, st, t, id(x) in short)
            st.sample({'tokens': ' '.join(ch[0])})
        elif k == 'str':
            strings(ch, st)
        elif k == 'com':
            comments(ch, st)
        else:
            directives(st)
    ctx.rule = 'one text for every construct shape; every comment body to a length; trivia at every gap, at pairs of gaps, at all gaps; minimal white space'
    ctx.bounds = {'texts': len(texts), 'trivia': len(TRIVIA), 'texts with pairs': len(short), 'string words': len(ws), 'comment bodies': len(cs)}
    ctx.assumptions = ['token boundaries come from an independent tokenizer; directives are the ones the parser itself ignores']
    ctx.explore(units, work)
