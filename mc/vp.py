"""Thin access layer to the code under test: only public entry points."""
import os
import tempfile

_parser = None


def new_parser():
    from pyverilog.vparser.parser import VerilogParser
    return VerilogParser(outputdir=os.environ.get('MC_SCRATCH', tempfile.gettempdir()), debug=False)


def parser():
    """One shared parser per process (forked workers inherit it). That parse results do not
    depend on what the object parsed before is itself a property with its own check."""
    global _parser
    if _parser is None:
        _parser = new_parser()
    return _parser


def parse(text):
    return parser().parse(text)


def new_parse(text):
    """Parse with a parser object whose history is empty apart from table construction."""
    return new_parser().parse(text)


def codegen(node):
    from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
    global _gen
    try:
        g = _gen
    except NameError:
        g = _gen = ASTCodeGenerator()
    return g.visit(node)


SKIP = ('lineno', 'end_lineno')


def full(n):
    """Complete structural dump of an AST (public fields, positions dropped)."""
    if n is None or isinstance(n, (str, int, float, bool)):
        return n
    if isinstance(n, (list, tuple)):
        return tuple(full(x) for x in n)
    d = getattr(n, '__dict__', None)
    if d is None:
        return repr(n)
    return (n.__class__.__name__,) + tuple(
        (k, full(v)) for k, v in sorted(d.items()) if k not in SKIP and not k.startswith('_'))


def diff(a, b, path=''):
    """First difference between two full() dumps, for reports."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                lab = a[0] if a and isinstance(a[0], str) else ''
                return diff(x, y, '%s/%s.%d' % (path, lab, i))
    return '%s: %s  !=  %s' % (path, repr(a)[:200], repr(b)[:200])


def items(source):
    """Items of the first module of a parsed source."""
    return source.description.definitions[0].items


_analyzer = None


def analyze(text, top, noreorder=False):
    """Dataflow of a source text: (terms, bindings), through one shared analyzer object per process
    (building one takes a second); only the reading of files is left out."""
    global _analyzer
    if _analyzer is None:
        from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
        import os
        here = os.getcwd()
        os.chdir(os.environ.get('MC_SCRATCH', tempfile.gettempdir()))
        try:
            _analyzer = VerilogDataflowAnalyzer('none.v', 'm')
        finally:
            os.chdir(here)
    a = _analyzer
    a.preprocess = lambda: text
    a.topmodule = top
    a.noreorder = noreorder
    a.terms, a.binddict, a.frametable = {}, {}, None
    a.generate()
    return a
