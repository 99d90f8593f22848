"""Reference model of Verilog source: nested tuples, with three independent maps
   render(model) -> Verilog text          (written from IEEE 1364, not from the code generator)
   build(model)  -> AST of the code under test, through its public constructors
   read(ast)     -> model                 (public node fields only; positions ignored)
Module items and statements:
  ('decl', (v, ...))     v: (Class, name, width, signed, dims) | ('Supply', name, '0'|'1', width, signed)
                            | ('Integer', name, init) | ('Real', name) | ('Genvar', name)
                            | ('Parameter'|'Localparam', name, value, width, signed) | ('assign', ...)
  ('assign', l, r, ldelay, rdelay)
  ('always', Class, sens, stmt)          sens: tuple of (type, expr|None)
  ('initial', stmt)
  ('inst', module, params, ((name, array, ports), ...))
  ('func', name, width, (stmt, ...)) ('task', name, (stmt, ...))
  ('gen', (item, ...)) ('pragma', name, value|None)
  ('block', scope, (..)) ('fork', (..)) ('if', c, t, f) ('for', pre, c, post, s) ('while', c, s)
  ('case', Class, comp, ((conds|None, s), ...)) ('ba', l, r, ld, rd) ('nba', l, r, ld, rd)
  ('event', sens) ('wait', c, s|None) ('forever', s) ('delay', e) ('syscall', name, args) ('disable', n)
  ('module', name, params, ports, items)  params: tuple of decl tuples; ports: ('port', n) | ('ioport', v, v|None)
"""
from mc import expr
from mc.expr import BINCLS, UNCLS, MARK, UMARK, LEVEL

# ------------------------------------------------------------------ expressions


def rexpr(e):
    """Render an expression model fully parenthesised, so that the text fixes the structure."""
    k = e[0]
    if k == 'id':
        return rname(e[1])
    if k == 'sid':
        return ''.join('%s%s.' % (rname(n), '' if l is None else '[%s]' % rexpr(l)) for n, l in e[1]) + rname(e[2])
    if k in ('int', 'flt'):
        return e[1]
    if k == 'str':
        return '"%s"' % e[1]
    if k in UNCLS:
        return '(%s(%s))' % (UMARK[k], rexpr(e[1]))
    if k in BINCLS:
        return '((%s) %s (%s))' % (rexpr(e[1]), MARK[k], rexpr(e[2]))
    if k == 'Cond':
        return '((%s) ? (%s) : (%s))' % (rexpr(e[1]), rexpr(e[2]), rexpr(e[3]))
    if k == 'bit':
        return '%s[%s]' % (rexpr(e[1]), rexpr(e[2]))
    if k == 'part':
        return '%s[%s:%s]' % (rexpr(e[1]), rexpr(e[2]), rexpr(e[3]))
    if k == 'cat':
        return '{%s}' % ', '.join(rexpr(x) for x in e[1])
    if k == 'rep':
        return '{%s{%s}}' % (rexpr(e[1]), ', '.join(rexpr(x) for x in e[2]))
    if k == 'call':
        return '%s(%s)' % (rexpr(e[1]) if isinstance(e[1], tuple) else rname(e[1]), ', '.join(rexpr(x) for x in e[2]))
    if k == 'sys':
        return '$%s' % rname(e[1]) + ('(%s)' % ', '.join(rexpr(x) for x in e[2]) if e[2] else '')
    raise ValueError(e)


def rname(n):
    return n + ' ' if n.startswith('\\') else n


def bexpr(e):
    import pyverilog.vparser.ast as A
    k = e[0]
    if k == 'id':
        return A.Identifier(e[1])
    if k == 'sid':
        return A.Identifier(e[2], A.IdentifierScope(tuple(
            A.IdentifierScopeLabel(n, None if l is None else bexpr(l)) for n, l in e[1])))
    if k == 'int':
        return A.IntConst(e[1])
    if k == 'flt':
        return A.FloatConst(e[1])
    if k == 'str':
        return A.StringConst(e[1])
    if k in UNCLS:
        return getattr(A, k)(bexpr(e[1]))
    if k in BINCLS:
        return getattr(A, k)(bexpr(e[1]), bexpr(e[2]))
    if k == 'Cond':
        return A.Cond(bexpr(e[1]), bexpr(e[2]), bexpr(e[3]))
    if k == 'bit':
        return A.Pointer(bexpr(e[1]), bexpr(e[2]))
    if k == 'part':
        return A.Partselect(bexpr(e[1]), bexpr(e[2]), bexpr(e[3]))
    if k == 'cat':
        return A.Concat(tuple(bexpr(x) for x in e[1]))
    if k == 'rep':
        return A.Repeat(A.Concat(tuple(bexpr(x) for x in e[2])), bexpr(e[1]))
    if k == 'call':
        return A.FunctionCall(A.Identifier(e[1]), tuple(bexpr(x) for x in e[2]))
    if k == 'sys':
        return A.SystemCall(e[1], tuple(bexpr(x) for x in e[2]))
    raise ValueError(e)


def blval(e):
    import pyverilog.vparser.ast as A

    def lv(x):
        return A.LConcat(tuple(lv(y) for y in x[1])) if x[0] == 'cat' else bexpr(x)
    return A.Lvalue(lv(e))


# ------------------------------------------------------------------ render

def _w(w):
    return '' if w is None else '[%s:%s] ' % (rexpr(w[0]), rexpr(w[1]))


def _d(d):
    return '' if d is None else '#(%s) ' % rexpr(d)


def _dims(d):
    return '' if d is None else ''.join(' [%s:%s]' % (rexpr(a), rexpr(b)) for a, b in d)


def _sens(s):
    if s == (('all', None),):
        return '@*'
    return '@(%s)' % ' or '.join(('%s %s' % (t, rexpr(e)) if t in ('posedge', 'negedge') else rexpr(e)) for t, e in s)


def rvar(v):
    c = v[0]
    if c in ('Input', 'Output', 'Inout', 'Wire', 'Reg', 'Tri'):
        return '%s %s%s%s%s' % (c.lower(), 'signed ' if v[3] else '', _w(v[2]), rname(v[1]), _dims(v[4]))
    if c == 'Supply':
        return 'supply%s %s%s%s' % (v[2], 'signed ' if v[4] else '', _w(v[3]), rname(v[1]))
    if c == 'Integer':
        return 'integer %s%s' % (rname(v[1]), '' if v[2] is None else ' = ' + rexpr(v[2]))
    if c == 'Real':
        return 'real ' + rname(v[1])
    if c == 'Genvar':
        return 'genvar ' + rname(v[1])
    if c in ('Parameter', 'Localparam'):
        return '%s %s%s%s = %s' % (c.lower(), 'signed ' if v[4] else '', _w(v[3]), rname(v[1]), rexpr(v[2]))
    raise ValueError(v)


def rdecl(vs):
    """Declarations of one Decl node, possibly several source statements (normalised by read)."""
    return ' '.join(ritem(v) if v[0] == 'assign' else rvar(v) + ';' for v in vs)


def ritem(m):
    k = m[0]
    if k == 'decl':
        return rdecl(m[1])
    if k == 'assign':
        return 'assign %s%s = %s%s;' % (_d(m[3]), rexpr(m[1]), _d(m[4]), rexpr(m[2]))
    if k == 'always':
        kw = {'Always': 'always', 'AlwaysFF': 'always_ff', 'AlwaysComb': 'always_comb',
              'AlwaysLatch': 'always_latch'}[m[1]]
        return '%s %s %s' % (kw, _sens(m[2]) if m[2] else '', rstmt(m[3]))
    if k == 'initial':
        return 'initial ' + rstmt(m[1])
    if k == 'inst':
        ps = ''
        if m[2]:
            ps = '#(%s) ' % ', '.join(rexpr(e) if n is None else '.%s(%s)' % (rname(n), rexpr(e)) for n, e in m[2])
        return '%s %s%s;' % (rname(m[1]), ps, ', '.join(
            '%s%s(%s)' % (rname(n) + ' ' if n else '', '' if a is None else _w(a), ', '.join(
                ('' if e is None else rexpr(e)) if pn is None else '.%s(%s)' % (
                    rname(pn), '' if e is None else rexpr(e)) for pn, e in ports))
            for n, a, ports in m[3]))
    if k == 'func':
        return 'function %s%s; %s endfunction' % (_w(m[2]), rname(m[1]), ' '.join(rstmt(s) for s in m[3]))
    if k == 'task':
        return 'task %s; %s endtask' % (rname(m[1]), ' '.join(rstmt(s) for s in m[2]))
    if k == 'gen':
        return 'generate %s endgenerate' % ' '.join(rgen(x) for x in m[1])
    if k == 'pragma':
        return '(* %s%s *)' % (m[1], '' if m[2] is None else ' = ' + rexpr(m[2]))
    raise ValueError(m)


def rgen(m):
    k = m[0]
    if k == 'block':
        return 'begin %s%s end' % (': %s ' % rname(m[1]) if m[1] else '', ' '.join(rgen(x) for x in m[2]))
    if k == 'if':
        return 'if(%s) %s%s' % (rexpr(m[1]), rgen(m[2]), '' if m[3] is None else ' else ' + rgen(m[3]))
    if k == 'for':
        return 'for(%s; %s; %s) %s' % (rba(m[1]), rexpr(m[2]), rba(m[3]), rgen(m[4]))
    return ritem(m)


def rba(m, op='='):
    return '%s%s %s %s%s' % (_d(m[3]), rexpr(m[1]), op, _d(m[4]), rexpr(m[2]))


def rstmt(m):
    k = m[0]
    if k == 'decl':
        return rdecl(m[1])
    if k == 'block':
        return 'begin %s%s end' % (': %s ' % rname(m[1]) if m[1] else '', ' '.join(rstmt(x) for x in m[2]))
    if k == 'fork':
        return 'fork %s join' % ' '.join(rstmt(x) for x in m[1])
    if k == 'if':
        return 'if(%s) %s%s' % (rexpr(m[1]), rstmt(m[2]), '' if m[3] is None else ' else ' + rstmt(m[3]))
    if k == 'for':
        return 'for(%s; %s; %s) %s' % ('' if m[1] is None else rba(m[1]), '' if m[2] is None else rexpr(m[2]),
                                       '' if m[3] is None else rba(m[3]), rstmt(m[4]))
    if k == 'while':
        return 'while(%s) %s' % (rexpr(m[1]), rstmt(m[2]))
    if k == 'case':
        kw = {'CaseStatement': 'case', 'CasexStatement': 'casex', 'CasezStatement': 'casez',
              'UniqueCaseStatement': 'unique case'}[m[1]]
        return '%s(%s) %s endcase' % (kw, rexpr(m[2]), ' '.join(
            '%s: %s' % ('default' if c is None else ', '.join(rexpr(x) for x in c), rstmt(s)) for c, s in m[3]))
    if k == 'ba':
        return rba(m) + ';'
    if k == 'nba':
        return rba(m, '<=') + ';'
    if k == 'event':
        return _sens(m[1]) + ';' if m[1] else ';'
    if k == 'wait':
        return 'wait(%s) %s' % (rexpr(m[1]), ';' if m[2] is None else rstmt(m[2]))
    if k == 'forever':
        return 'forever ' + rstmt(m[1])
    if k == 'delay':
        return '#(%s);' % rexpr(m[1])
    if k == 'syscall':
        return rexpr(('sys', m[1], m[2])) + ';'
    if k == 'disable':
        return 'disable %s;' % rname(m[1])
    raise ValueError(m)


def rport(p):
    if p[0] == 'port':
        return rname(p[1])
    v, s = p[1], p[2]
    sg = v[3] or (s is not None and s[3])
    return '%s %s%s%s%s%s' % (v[0].lower(), '' if s is None else s[0].lower() + ' ', 'signed ' if sg else '',
                              _w(v[2]), rname(v[1]), _dims(v[4]))


def rmodule(m):
    ps = ''
    if m[2]:
        ps = ' #(%s)' % ', '.join(rvar(v) for d in m[2] for v in d)
    return 'module %s%s (%s);\n%s\nendmodule\n' % (
        rname(m[1]), ps, ', '.join(rport(p) for p in m[3]), '\n'.join(ritem(i) for i in m[4]))


def rsource(mods):
    return '\n'.join(rmodule(m) for m in mods)


# ------------------------------------------------------------------ build

def _bw(w, cls='Width'):
    import pyverilog.vparser.ast as A
    return None if w is None else getattr(A, cls)(bexpr(w[0]), bexpr(w[1]))


def _bd(d):
    import pyverilog.vparser.ast as A
    return None if d is None else A.DelayStatement(bexpr(d))


def _bdims(d):
    import pyverilog.vparser.ast as A
    return None if d is None else A.Dimensions([_bw(x, 'Length') for x in d])


def _bsens(s):
    import pyverilog.vparser.ast as A
    return A.SensList(tuple(A.Sens(None if e is None else bexpr(e), t) for t, e in s))


def bvar(v):
    import pyverilog.vparser.ast as A
    c = v[0]
    if c in ('Input', 'Output', 'Inout', 'Wire', 'Reg', 'Tri'):
        return getattr(A, c)(v[1], width=_bw(v[2]), signed=v[3], dimensions=_bdims(v[4]))
    if c == 'Supply':
        return A.Supply(v[1], value=A.IntConst(v[2]), width=_bw(v[3]), signed=v[4])
    w31 = (('int', '31'), ('int', '0'))
    if c == 'Integer':
        return A.Integer(v[1], _bw(w31), signed=True, value=None if v[2] is None else A.Rvalue(bexpr(v[2])))
    if c == 'Real':
        return A.Real(v[1], _bw(w31))
    if c == 'Genvar':
        return A.Genvar(v[1], _bw(w31))
    if c in ('Parameter', 'Localparam'):
        return getattr(A, c)(v[1], A.Rvalue(bexpr(v[2])), _bw(v[3]), signed=v[4])
    if c == 'assign':
        return build(v)
    raise ValueError(v)


def build(m):
    import pyverilog.vparser.ast as A
    k = m[0]
    if k == 'decl':
        return A.Decl(tuple(bvar(v) for v in m[1]))
    if k == 'assign':
        return A.Assign(blval(m[1]), A.Rvalue(bexpr(m[2])), _bd(m[3]), _bd(m[4]))
    if k == 'always':
        return getattr(A, m[1])(_bsens(m[2]), build(m[3]))
    if k == 'initial':
        return A.Initial(build(m[1]))
    if k == 'inst':
        ps = tuple(A.ParamArg(n, bexpr(e)) for n, e in m[2])
        return A.InstanceList(m[1], ps, tuple(
            A.Instance(m[1], n, tuple(A.PortArg(pn, None if e is None else bexpr(e)) for pn, e in ports), ps, _bw(a))
            for n, a, ports in m[3]))
    if k == 'func':
        z = (('int', '0'), ('int', '0'))
        return A.Function(m[1], _bw(m[2] or z), tuple(build(s) for s in m[3]))
    if k == 'task':
        return A.Task(m[1], tuple(build(s) for s in m[2]))
    if k == 'gen':
        return A.GenerateStatement(tuple(build(x) for x in m[1]))
    if k == 'pragma':
        return A.Pragma(A.PragmaEntry(m[1], None if m[2] is None else bexpr(m[2])))
    if k == 'block':
        return A.Block(tuple(build(x) for x in m[2]), m[1])
    if k == 'fork':
        return A.ParallelBlock(tuple(build(x) for x in m[1]))
    if k == 'if':
        return A.IfStatement(bexpr(m[1]), build(m[2]), None if m[3] is None else build(m[3]))
    if k == 'for':
        return A.ForStatement(None if m[1] is None else build(m[1]), None if m[2] is None else bexpr(m[2]),
                              None if m[3] is None else build(m[3]), build(m[4]))
    if k == 'while':
        return A.WhileStatement(bexpr(m[1]), build(m[2]))
    if k == 'case':
        return getattr(A, m[1])(bexpr(m[2]), tuple(
            A.Case(None if c is None else tuple(bexpr(x) for x in c), build(s)) for c, s in m[3]))
    if k == 'ba':
        return A.BlockingSubstitution(blval(m[1]), A.Rvalue(bexpr(m[2])), _bd(m[3]), _bd(m[4]))
    if k == 'nba':
        return A.NonblockingSubstitution(blval(m[1]), A.Rvalue(bexpr(m[2])), _bd(m[3]), _bd(m[4]))
    if k == 'event':
        return A.EventStatement(_bsens(m[1]))
    if k == 'wait':
        return A.WaitStatement(bexpr(m[1]), None if m[2] is None else build(m[2]))
    if k == 'forever':
        return A.ForeverStatement(build(m[1]))
    if k == 'delay':
        return A.SingleStatement(A.DelayStatement(bexpr(m[1])))
    if k == 'syscall':
        return A.SingleStatement(A.SystemCall(m[1], tuple(bexpr(x) for x in m[2])))
    if k == 'disable':
        return A.SingleStatement(A.Disable(m[1]))
    if k == 'port':
        return A.Port(m[1], None, None, None)
    if k == 'ioport':
        return A.Ioport(bvar(m[1]), None if m[2] is None else bvar(m[2]))
    if k == 'module':
        return A.ModuleDef(m[1], A.Paramlist(tuple(A.Decl(tuple(bvar(v) for v in d)) for d in m[2])),
                           A.Portlist(tuple(build(p) for p in m[3])), tuple(build(i) for i in m[4]))
    raise ValueError(m)


def bsource(mods):
    import pyverilog.vparser.ast as A
    return A.Source('', A.Description(tuple(build(m) for m in mods)))


# ------------------------------------------------------------------ read

def _rdw(w):
    return None if w is None else (rd(w.msb), rd(w.lsb))


def _rdd(d):
    return None if d is None else rd(d.delay)


def rd(n):
    return None if n is None else expr.of_ast(n)


def _rds(sl):
    return tuple((s.type, rd(s.sig)) for s in sl.list)


def readvar(n):
    c = n.__class__.__name__
    if c in ('Input', 'Output', 'Inout', 'Wire', 'Reg', 'Tri'):
        dims = None if n.dimensions is None else tuple(_rdw(x) for x in n.dimensions.lengths)
        return (c, n.name, _rdw(n.width), bool(n.signed), dims)
    if c == 'Supply':
        return (c, n.name, rd(n.value)[1], _rdw(n.width), bool(n.signed))
    if c == 'Integer':
        return (c, n.name, rd(n.value))
    if c in ('Real', 'Genvar'):
        return (c, n.name)
    if c in ('Parameter', 'Localparam'):
        return (c, n.name, rd(n.value), _rdw(n.width), bool(n.signed))
    return read(n)


def read(n):
    c = n.__class__.__name__
    if c == 'Decl':
        return ('decl', tuple(readvar(v) for v in n.list))
    if c == 'Assign':
        return ('assign', rd(n.left), rd(n.right), _rdd(n.ldelay), _rdd(n.rdelay))
    if c in ('Always', 'AlwaysFF', 'AlwaysComb', 'AlwaysLatch'):
        return ('always', c, _rds(n.sens_list), read(n.statement))
    if c == 'Initial':
        return ('initial', read(n.statement))
    if c == 'InstanceList':
        ps = tuple((p.paramname, rd(p.argname)) for p in n.parameterlist)
        insts = []
        for i in n.instances:
            ips = tuple((p.paramname, rd(p.argname)) for p in i.parameterlist)
            if i.module != n.module or ips != ps:
                return ('inst-inconsistent', n.module, i.module, ps, ips)
            insts.append((i.name, _rdw(i.array), tuple((p.portname, rd(p.argname)) for p in i.portlist)))
        return ('inst', n.module, ps, tuple(insts))
    if c == 'Function':
        return ('func', n.name, _rdw(n.retwidth), tuple(read(s) for s in n.statement))
    if c == 'Task':
        return ('task', n.name, tuple(read(s) for s in n.statement))
    if c == 'GenerateStatement':
        return ('gen', tuple(read(x) for x in n.items))
    if c == 'Pragma':
        return ('pragma', n.entry.name, rd(n.entry.value))
    if c == 'Block':
        return ('block', n.scope, tuple(read(x) for x in n.statements))
    if c == 'ParallelBlock':
        return ('fork', tuple(read(x) for x in n.statements))
    if c == 'IfStatement':
        return ('if', rd(n.cond), None if n.true_statement is None else read(n.true_statement),
                None if n.false_statement is None else read(n.false_statement))
    if c == 'ForStatement':
        return ('for', None if n.pre is None else read(n.pre), rd(n.cond),
                None if n.post is None else read(n.post), read(n.statement))
    if c == 'WhileStatement':
        return ('while', rd(n.cond), read(n.statement))
    if c in ('CaseStatement', 'CasexStatement', 'CasezStatement', 'UniqueCaseStatement'):
        return ('case', c, rd(n.comp), tuple(
            (None if x.cond is None else tuple(rd(y) for y in x.cond), read(x.statement)) for x in n.caselist))
    if c == 'BlockingSubstitution':
        return ('ba', rd(n.left), rd(n.right), _rdd(n.ldelay), _rdd(n.rdelay))
    if c == 'NonblockingSubstitution':
        return ('nba', rd(n.left), rd(n.right), _rdd(n.ldelay), _rdd(n.rdelay))
    if c == 'EventStatement':
        return ('event', _rds(n.senslist))
    if c == 'WaitStatement':
        return ('wait', rd(n.cond), None if n.statement is None else read(n.statement))
    if c == 'ForeverStatement':
        return ('forever', read(n.statement))
    if c == 'SingleStatement':
        s = n.statement
        sc = s.__class__.__name__
        if sc == 'DelayStatement':
            return ('delay', rd(s.delay))
        if sc == 'SystemCall':
            return ('syscall', s.syscall, tuple(rd(x) for x in s.args))
        if sc == 'Disable':
            return ('disable', s.dest)
        return ('single?', sc)
    if c == 'Port':
        return ('port', n.name)
    if c == 'Ioport':
        return ('ioport', readvar(n.first), None if n.second is None else readvar(n.second))
    if c == 'ModuleDef':
        return ('module', n.name,
                () if n.paramlist is None else tuple(tuple(readvar(v) for v in d.list) for d in n.paramlist.params),
                () if n.portlist is None else tuple(read(p) for p in n.portlist.ports),
                tuple(read(i) for i in n.items))
    return ('?', c)


def rdsource(src):
    return tuple(read(d) for d in src.description.definitions)


def split_decls(items):
    """A Decl of several names and several Decls of one name each declare the same things."""
    out = []
    for i in items:
        if i[0] == 'decl':
            out.extend(i[1])
        else:
            out.append(i)
    return tuple(out)


def norm(m):
    """Canonical form for comparison across re-rendering: flatten Decls everywhere."""
    if not isinstance(m, tuple):
        return m
    if m and m[0] == 'module':
        return ('module', m[1], tuple(v for d in m[2] for v in d), norm(m[3]), split_decls([norm(x) for x in m[4]]))
    if m and m[0] == 'wait' and m[2] == ('event', ()):
        return ('wait', m[1], None)
    if m and m[0] == 'gen':
        return ('gen', split_decls([norm(x) for x in m[1]]))
    if m and m[0] == 'block':
        return ('block', m[1], split_decls([norm(x) for x in m[2]]))
    if m and m[0] == 'func':
        return ('func', m[1], m[2], split_decls([norm(x) for x in m[3]]))
    if m and m[0] == 'task':
        return ('task', m[1], split_decls([norm(x) for x in m[2]]))
    return tuple(norm(x) for x in m)


def open_if(m):
    """Would an else right after this statement belong to an if inside it?"""
    if m[0] == 'if':
        return m[3] is None or open_if(m[3])
    if m[0] in ('for', 'while', 'forever', 'wait'):
        return m[-1] is not None and open_if(m[-1])
    return False


def ambiguous(m):
    """Does the model hold an if whose else would be captured by an inner if when written out?"""
    if not isinstance(m, tuple) or not m:
        return False
    if m[0] == 'if' and len(m) == 4 and m[3] is not None and isinstance(m[2], tuple) and open_if(m[2]):
        return True
    return any(ambiguous(x) for x in m)


def unwrap(m):
    """Drop unnamed one-statement blocks (braces added to keep an else with its if)."""
    if not isinstance(m, tuple):
        return m
    m = tuple(unwrap(x) for x in m)
    if len(m) == 3 and m[0] == 'block' and m[1] is None and len(m[2]) == 1 and m[2][0][0] != 'decl':
        return m[2][0]
    return m
