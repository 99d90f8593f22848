"""Reference model of Verilog expressions (IEEE 1364-2005 clause 5, table 5-4).

An expression model is a nested tuple:
  ('id', name) ('int', text) ('flt', text) ('str', text)
  (Unary, x) (Binary, l, r) ('Cond', c, t, f)
  ('bit', var, index) ('part', var, msb, lsb) ('cat', (x, ...)) ('rep', times, (x, ...))
  ('call', name, (x, ...)) ('sys', name, (x, ...))
The reference parser below is precedence climbing over a token list, written from the
standard's table and independent of the grammar under test.
"""

BINARY = [
    # (token, class, level)  -- a larger level binds tighter
    ('**', 'Power', 12),
    ('*', 'Times', 11), ('/', 'Divide', 11), ('%', 'Mod', 11),
    ('+', 'Plus', 10), ('-', 'Minus', 10),
    ('<<', 'Sll', 9), ('>>', 'Srl', 9), ('<<<', 'Sla', 9), ('>>>', 'Sra', 9),
    ('<', 'LessThan', 8), ('>', 'GreaterThan', 8), ('<=', 'LessEq', 8), ('>=', 'GreaterEq', 8),
    ('==', 'Eq', 7), ('!=', 'NotEq', 7), ('===', 'Eql', 7), ('!==', 'NotEql', 7),
    ('&', 'And', 6),
    ('^', 'Xor', 5), ('~^', 'Xnor', 5), ('^~', 'Xnor', 5),
    ('|', 'Or', 4),
    ('&&', 'Land', 3),
    ('||', 'Lor', 2),
]
UNARY = [
    ('-', 'Uminus'), ('!', 'Ulnot'), ('~', 'Unot'), ('&', 'Uand'), ('~&', 'Unand'), ('|', 'Uor'),
    ('~|', 'Unor'), ('^', 'Uxor'), ('~^', 'Uxnor'), ('^~', 'Uxnor'), ('+', None),
]
BIN = {t: (c, l) for t, c, l in BINARY}
UN = dict(UNARY)
LEVEL = {c: l for _, c, l in BINARY}
BINCLS = set(LEVEL)
UNCLS = set(c for _, c in UNARY if c)
MARK = {}
for _t, _c, _l in BINARY:
    MARK.setdefault(_c, _t)
UMARK = {}
for _t, _c in UNARY:
    if _c:
        UMARK.setdefault(_c, _t)
# one representative operator per precedence level, plus operators sharing a level
LEVELREP = ['**', '*', '+', '<<', '<', '==', '&', '^', '|', '&&', '||']


class RefParser(object):
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, x):
        assert self.next() == x, (self.t, self.i)

    def expr(self):
        c = self.binary(0)
        if self.peek() == '?':
            self.next()
            t = self.expr()
            self.expect(':')
            f = self.expr()
            return ('Cond', c, t, f)
        return c

    def binary(self, minlevel):
        left = self.unary()
        while True:
            op = self.peek()
            if op not in BIN or BIN[op][1] < minlevel:
                return left
            self.next()
            cls, lev = BIN[op]
            right = self.binary(lev + 1)
            left = (cls, left, right)

    def unary(self):
        op = self.peek()
        if op in UN:
            self.next()
            x = self.unary()
            return x if UN[op] is None else (UN[op], x)
        return self.primary()

    def primary(self):
        t = self.next()
        if t == '(':
            e = self.expr()
            self.expect(')')
            return e
        if t == '{':
            e = self.expr()
            if self.peek() == '{':
                self.next()
                l = self.elist('}')
                self.expect('}')
                return ('rep', e, l)
            l = [e]
            while self.peek() == ',':
                self.next()
                l.append(self.expr())
            self.expect('}')
            return ('cat', tuple(l))
        if t[0] in "0123456789'":
            return ('flt' if '.' in t else 'int', t)
        if t[0] == '"':
            return ('str', t[1:-1])
        if t[0] == '$':
            if self.peek() == '(':
                self.next()
                return ('sys', t[1:], self.elist(')'))
            return ('sys', t[1:], ())
        assert t[0].isalpha() or t[0] in '_\\', t
        e = ('id', t)
        if self.peek() == '(':
            self.next()
            return ('call', t, self.elist(')'))
        while self.peek() == '[':
            self.next()
            a = self.expr()
            if self.peek() == ':':
                self.next()
                b = self.expr()
                self.expect(']')
                return ('part', e, a, b)
            if self.peek() in ('+:', '-:'):
                d = self.next()
                w = self.expr()
                self.expect(']')
                return ('ipart', d, e, a, w)
            self.expect(']')
            e = ('bit', e, a)
        return e

    def elist(self, close):
        l = [self.expr()]
        while self.peek() == ',':
            self.next()
            l.append(self.expr())
        self.expect(close)
        return tuple(l)


def refparse(toks):
    p = RefParser(list(toks))
    e = p.expr()
    assert p.i == len(p.t), (toks, p.i)
    return e


def of_ast(n):
    """AST of the code under test -> expression model, read through the public node fields."""
    c = n.__class__.__name__
    if c in ('Rvalue', 'Lvalue'):
        return of_ast(n.var)
    if c == 'Identifier':
        return ('id', n.name) if n.scope is None else (
            'sid', tuple((l.name, None if l.loop is None else of_ast(l.loop)) for l in n.scope.labellist), n.name)
    if c == 'IntConst':
        return ('int', n.value)
    if c == 'FloatConst':
        return ('flt', n.value)
    if c == 'StringConst':
        return ('str', n.value)
    if c in UNCLS:
        return (c, of_ast(n.right))
    if c in BINCLS:
        return (c, of_ast(n.left), of_ast(n.right))
    if c == 'Cond':
        return (c, of_ast(n.cond), of_ast(n.true_value), of_ast(n.false_value))
    if c == 'Pointer':
        return ('bit', of_ast(n.var), of_ast(n.ptr))
    if c == 'Partselect':
        return ('part', of_ast(n.var), of_ast(n.msb), of_ast(n.lsb))
    if c == 'Repeat':
        v = of_ast(n.value)
        return ('rep', of_ast(n.times), v[1] if v[0] == 'cat' else v)
    if c in ('Concat', 'LConcat'):
        return ('cat', tuple(of_ast(x) for x in n.list))
    if c == 'FunctionCall':
        nm = of_ast(n.name)
        return ('call', nm[1] if nm[0] == 'id' else nm, tuple(of_ast(x) for x in n.args))
    if c == 'SystemCall':
        return ('sys', n.syscall, tuple(of_ast(x) for x in n.args))
    return ('?', c)
