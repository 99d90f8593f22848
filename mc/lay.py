"""Token-level texts for layout checks: an independent tokenizer and a corpus covering every construct."""
import itertools
import re

from mc import gen, vlog

TOKEN = re.compile(r'''
  "(?:[^"\\\n]|\\.)*"                            # string
 | \\\S+                                         # escaped identifier (ends at white space)
 | [0-9]*'[sS]?[bBoOdDhH][0-9a-fA-FxXzZ?_]+       # based number
 | [0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)? | [0-9]+[eE][-+]?[0-9]+
 | [0-9][0-9_]*
 | [A-Za-z_][A-Za-z0-9_$]*
 | <<< | >>> | === | !== | << | >> | <= | >= | == | != | && | \|\| | \*\* | ~& | ~\| | ~\^ | \^~ | \+: | -:
 | [-+*/%&|^~!<>=?:;,.()\[\]{}@\#$]
''', re.X)
WS = re.compile(r'\s+')


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = WS.match(text, i)
        if m:
            i = m.end()
            continue
        m = TOKEN.match(text, i)
        assert m, text[i:i + 30]
        out.append(m.group())
        i = m.end()
    return out


def mergeable(a, b):
    """Whether two neighbouring tokens need white space between them to stay two tokens."""
    if a[0] == '\\':
        return True
    if b[0] in "\\":
        return False
    try:
        return tokens(a + b) != [a, b] or (a[-1] in '/*(' and b[0] in '/*)') or (a[-1].isalnum() and b[0] == "'") or (
            a[-1].isdigit() and b[0] == '.')
    except AssertionError:
        return True


def module(body):
    return 'module m ( ) ; %s endmodule' % body


def shape(m):
    """Shape of a model: what construct it is, without names and constants."""
    if isinstance(m, tuple):
        if m and m[0] in ('id', 'int', 'flt', 'str'):
            return m[0]
        return tuple(shape(x) for x in m)
    return type(m).__name__ if not isinstance(m, str) else (m if m[:1].isalpha() and m[:1].isupper() else 's')


def corpus(limit=26):
    """One smallest text for each shape, over all item kinds; a set of source texts (token lists)."""
    seen, out = set(), []

    def add(text, key):
        if key in seen:
            return
        t = tokens(text)
        if len(t) > limit:
            return
        seen.add(key)
        out.append(t)
    for m in itertools.chain(gen.always_items(), (('initial', s) for s in gen.statements(2)), gen.func_items(False),
                             gen.generate_items(2)):
        if not vlog.ambiguous(m):
            add(vlog.ritem(m), top(m))
    for t, m in itertools.chain(gen.decl_items(False), gen.instance_items(False)):
        add(t, top(m))
    for e in itertools.chain(gen.expr_models(False)):
        add(vlog.ritem(('assign', ('id', 'y'), e, None, None)), ('e', top(e)))
    return out


def top(m, d=0):
    """Shape cut at a small depth: construct kinds with their list lengths and presence of optional parts."""
    if isinstance(m, tuple):
        if not m:
            return ()
        if m[0] in ('id', 'int', 'flt', 'str', 'bit', 'part', 'cat', 'rep', 'call', 'sys', 'sid', 'Cond'):
            return m[0] if d else (m[0],) + tuple(top(x, d + 1) for x in m[1:])
        if isinstance(m[0], str) and m[0][:1].isupper() and len(m) <= 3 and all(isinstance(x, tuple) for x in m[1:]):
            return 'op' if d else m[0]
        if d >= 3:
            return m[0] if isinstance(m[0], str) else len(m)
        return tuple(top(x, d + 1) for x in m)
    if isinstance(m, str):
        return m if m[:1].isupper() or m in KEY else ('esc' if m[:1] == '\\' else 's')
    return m


KEY = {'block', 'if', 'case', 'for', 'while', 'wait', 'forever', 'fork', 'event', 'delay', 'disable', 'syscall', 'ba', 'nba',
       'decl', 'assign', 'inst', 'func', 'task', 'gen', 'always', 'initial', 'pragma', 'ioport', 'port', 'posedge', 'negedge',
       'level', 'all'}


def features(t):
    """The neighbouring token classes of a text: used to keep a subset that still has every adjacency."""
    def cl(x):
        if x[0].isdigit() or "'" in x:
            return '0'
        if x[0] == '"':
            return '"'
        if x[0] == '\\':
            return '\\'
        if x.isidentifier() and len(x) <= 2 or x in ('clk', 'rst', 'sub', 'lab'):
            return 'id'
        return x
    c = ['^'] + [cl(x) for x in t] + ['$']
    ks = [x for x in t[2:-1] if x in WORDS]
    return set(zip(c, c[1:])) | set(zip(c, c[1:], c[2:])) | {(('word', a), b) for i, a in enumerate(ks) for b in ks[i + 1:]}


WORDS = set('if else case casex casez for while wait forever begin end fork join always initial function task generate endgenerate default '
            'posedge negedge or assign input output inout wire reg tri integer real genvar parameter localparam signed automatic '
            'disable unique supply0 supply1'.split())


def thin(texts, k):
    """Smallest-first greedy subset in which every adjacency (k=1: pairs; k=2: also triples) and every pair of keywords of the corpus occurs."""
    seen, out = set(), []
    for t in sorted(texts, key=lambda t: (len(t), t)):
        f = features(t)
        if k == 1:
            f = {x for x in f if len(x) == 2}
        if f - seen:
            seen |= f
            out.append(t)
    return out
