"""The properties, in one place: writes properties.jsonl and MANIFEST.json.
Run: python3 tools/props.py   (from /verif)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
V, C, D, U = 'pyverilog/vparser/', 'pyverilog/ast_code_generator/', 'pyverilog/dataflow/', 'pyverilog/utils/'
A = 'pyverilog/controlflow/'

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state or [], observe=observe or []))


TREF = ('exhaustive enumeration of a bounded input language; an independent reference model of each element is compared '
        'with what the real code produces')
NREF = ('Exhaustive within the stated bounds. Every model element is replayed on the real code, so there is no '
        'unbound model; trusted: the reference model in /verif/mc (written from the standard, not from the code).')

prop('P01', 'Expressions are parsed with the structure the Verilog operator table gives',
     'For every legal expression, in every place where an expression may stand, the syntax tree has exactly the grouping, '
     'operators, operands and operand order that the precedence and associativity rules of Verilog prescribe. '
     'Indexed part-selects select exactly the bits the language defines.',
     ['inputs'], 'every expression: any mix of unary, binary and conditional operators, parentheses, selections, '
     'concatenations, replications and calls, in any expression position',
     'A grouping error shows only for particular neighbouring operators; the tests parse a few dozen expressions and mostly compare whole dumps of one design.',
     [V + 'parser.py', V + 'lexer.py', V + 'ast.py'],
     [('operator precedence table and expression productions', V + 'parser.py: precedence, p_expression_*'),
      ('operator tokens', V + 'lexer.py: t_*')],
     'explicit enumeration of all operator sequences to a depth, checked against a precedence-climbing reference parser', NREF)

prop('P02', 'Declarations, headers, parameters and instances are kept as written',
     'For every accepted module, the tree holds every declared port, net, variable, parameter and instance, in order, with its '
     'direction, kind, signedness, range, dimensions, value, delay, and connections, and nothing that was not written. '
     'Attributes a header list inherits from the entry before it are the ones the language defines.',
     ['inputs', 'programs'], 'every combination of declaration kind, sign, range, array dimensions, initial value, list length and header style',
     'The tests use a few declaration styles each once; dropped or swapped attributes in a combination they do not use are invisible.',
     [V + 'parser.py', V + 'ast.py'],
     [('declaration productions', V + 'parser.py: create_decl, create_declassign, p_ioports*, p_decl*'),
      ('instances', V + 'parser.py: p_instance*')],
     'explicit enumeration of declaration/header/instance models, each rendered, parsed by the real parser and read back', NREF)

prop('P03', 'Statements, functions and generate constructs are kept as written',
     'For every accepted procedural or generate construct, the tree reproduces its nesting, branches, labels, event controls, '
     'delays, case items and loop headers exactly as written. An else always belongs to the nearest if that lacks one.',
     ['programs'], 'every nesting of statements, every event-control form, every function/task body and generate construct',
     'Nesting is unbounded and each pair of forms must compose; the tests contain a handful of nestings.',
     [V + 'parser.py', V + 'ast.py'],
     [('statement productions', V + 'parser.py: p_basic_statement*, p_if*, p_case*, p_for*'),
      ('generate productions', V + 'parser.py: p_generate*')],
     'explicit enumeration of statement models to a nesting depth, rendered, parsed and read back', NREF)

prop('P04', 'Code generated from a parsed design denotes the same design',
     'For every design that the parser accepts, the text that the code generator produces is accepted again and gives the same '
     'tree, and generating code from that tree again gives the same text.',
     ['programs'], 'every accepted source text: all declarations, expressions, statements, generate constructs and their nestings',
     'The tests compare generated text with a stored copy for a few designs; a template that loses an attribute or grouping in another combination is not seen.',
     [C + 'codegen.py', C + 'template', V + 'ast.py', V + 'parser.py'],
     [('one visitor and one template for each construct', C + 'codegen.py: visit_*, ' + C + 'template/*.txt'),
      ('parenthesis and space removal', C + 'codegen.py: del_paren, del_space')],
     'explicit enumeration of designs; parse -> generate -> parse -> generate compared on the real code', NREF)

prop('P05', 'Code generated from a tree built by a program parses back to that tree',
     'For every well-formed tree built directly from the node classes, the generated text is legal and parses to a tree of the same '
     'structure and meaning: no operator, operand order, branch, attribute, name or value is lost, moved or merged.',
     ['programs'], 'every tree over the node classes, including groupings a parser would not produce',
     'The tests build a few small trees (one LED example family) and compare with stored text.',
     [C + 'codegen.py', C + 'template', V + 'ast.py'],
     [('operator templates parenthesise operands', C + 'codegen.py: visit_*Operator'),
      ('dangling else protection', C + 'codegen.py: has_open_if')],
     'explicit enumeration of trees built from the node classes; generated text is read back by the real parser and compared with the model', NREF)

prop('P06', 'Layout, comments and directives never change the tree; line numbers are true',
     'Blank space, line breaks, comments and ignored compiler directives between tokens never change the syntax tree. '
     'The line number of every node is the line of its text in the parsed input, whatever precedes it. '
     'Comment or directive look-alikes inside string literals and escaped names are left alone.',
     ['inputs'], 'every placement of blanks, line breaks, comments and directives between the tokens of a design',
     'A comment or line break matters only at a particular gap between two particular tokens; tests have a handful of placements.',
     [V + 'lexer.py', V + 'parser.py'],
     [('comment, newline and directive tokens', V + 'lexer.py: t_COMMENTOUT, t_LINECOMMENT, t_NEWLINE, t_DIRECTIVE'),
      ('line bookkeeping', V + 'parser.py: set_lineno')],
     'exhaustive enumeration of trivia at every token gap (and pairs of gaps), compared with the undecorated parse and exact expected lines', NREF)

prop('P07', 'Text outside the language is rejected with a ParseError and nothing else',
     'For every input text, parsing ends and either returns a tree or raises the documented ParseError; no other exception, no '
     'hang and no silent acceptance of a text with a token missing, inserted, doubled or swapped that is outside the accepted language. '
     'The error names the line at which the text stops being acceptable.',
     ['inputs'], 'every text: truncations and token-level mutations of legal text and all short token strings',
     'The set of wrong texts is unbounded; the tests contain almost no illegal input.',
     [V + 'parser.py', V + 'lexer.py'],
     [('syntax error handling', V + 'parser.py: p_error, _raise_error'), ('lexical error handling', V + 'lexer.py: t_error, _lexer_error_func')],
     'exhaustive enumeration of all truncations, deletions, insertions, duplications and swaps of tokens of a corpus and all token strings to a length', NREF)

prop('P08', 'What a tool object did before never changes what it produces',
     'Parsing, generating code or analysing a design gives the same result whether the object or process has handled other designs, failed '
     'on others, or none; repeating an operation gives the same result, and no operation changes a tree that was handed to it, except the '
     'documented in-place ones.',
     ['histories'], 'every sequence of operations (parse good, parse bad, generate, analyse) on shared and fresh objects',
     'Tests create fresh objects and run one operation each, so leftover state is never observed.',
     [V + 'parser.py', V + 'lexer.py', C + 'codegen.py', D + 'dataflow_analyzer.py', D + 'modulevisitor.py'],
     [('reset of parser and lexer state at each parse', V + 'parser.py: VerilogParser.parse'),
      ('template cache', C + 'codegen.py: get_template')],
     'explicit-state exploration of all operation sequences to a depth over shared objects; every step compared with a fresh object', NREF)

prop('P09', 'Number literals have the value and width the language defines',
     'For every legal integer, real and string literal (any base, sign, size, underscores, x/z/? digits), the text is kept, and wherever the tools '
     'compute with it the value, width and signedness are those of the standard.',
     ['inputs'], 'every literal text up to a length over every base letter and digit',
     'Literal grammar is a product of size, sign, base and digits; tests use decimal and a few hex numbers.',
     [V + 'lexer.py', U + 'verror.py', 'pyverilog/utils/signaltype.py', D + 'dataflow.py'],
     [('literal tokens', V + 'lexer.py: t_INTNUMBER_*'), ('literal evaluation', D + 'dataflow.py: DFIntConst.eval, width')],
     'exhaustive enumeration of literal texts to a length, value/width compared with a reference evaluator', NREF)

prop('P10', 'Preprocessing substitutes, selects and includes exactly as directed',
     'For every text with macros, conditional sections, includes and defines from the caller, parsing gives the tree of the text that the '
     'directives denote; nothing else is changed, and no temporary or other file is left damaged.',
     ['inputs', 'configurations'], 'every nesting of ifdef/ifndef/elsif/else/endif with every set of defined names, macro definitions and include orders',
     'The outcome depends on the product of nesting and the defined set; the tests use one or two.',
     [V + 'preprocessor.py', V + 'parser.py'],
     [('preprocessor call', V + 'preprocessor.py: VerilogPreprocessor'), ('VerilogCodeParser', V + 'parser.py: VerilogCodeParser.preprocess')],
     'exhaustive enumeration of directive structures x define sets, compared with a reference preprocessor', NREF)

prop('P11', 'Tree nodes compare, hash, traverse and print faithfully',
     'Two trees compare equal exactly when they have the same structure and contents, equal trees have equal hashes, and unequal trees are '
     'reported unequal. The children of a node are exactly the nodes it holds, in order, and the printed dump shows every node with its attributes.',
     ['programs'], 'every pair of trees that differ in one node, attribute, child, or order',
     'Comparison bugs appear only for particular pairs of trees; tests compare few.',
     [V + 'ast.py'],
     [('Node.__eq__, __hash__, children, show', V + 'ast.py: Node')],
     'exhaustive enumeration of all single-site variations of every node class; equality compared with structural equality of the models', NREF)

prop('P12', 'Identifier collection and replacement see every identifier exactly once',
     'Collecting the identifiers of any tree yields exactly the names that are referenced in it; replacing names by a map renames exactly the '
     'mapped identifiers, keeps their scopes, and changes nothing else.',
     ['programs'], 'every expression and statement tree and every map of names',
     'A visitor that skips one kind of child is seen only with an identifier in that child.',
     [U + 'identifiervisitor.py', U + 'identifierreplace.py', V + 'ast.py'],
     [('generic traversal', U + 'identifiervisitor.py'), ('replacement traversal', U + 'identifierreplace.py')],
     'exhaustive enumeration of trees x rename maps, compared with a reference traversal of the model', NREF)

prop('P13', 'Optimising an expression never changes its value',
     'For every dataflow expression and every assignment of values to its signals under which its intermediate results fit their own widths, '
     'the optimised expression has the same value (defined bits stay the same); constant expressions reduce to the value that Verilog gives '
     'them, and an expression that cannot be reduced is left as it is rather than failing.',
     ['programs', 'inputs'], 'every expression over the operators, constants and widths, under every valuation of its signals',
     'Folding and masking rules interact with widths; the tests check a handful of designs by dump.',
     [D + 'optimizer.py', D + 'dataflow.py'],
     [('constant folding and simplification', D + 'optimizer.py: VerilogOptimizer.optimizeConstant, evalOperator')],
     'exhaustive enumeration of expression trees x valuations; optimised and original evaluated by a reference evaluator', NREF)

prop('P14', 'Restructuring conditions and merging paths preserves the value of a signal',
     'Replacing, reordering and merging the branches of a conditional dataflow tree, for any signal, never changes the value it selects under any '
     'truth assignment of its conditions; a later unconditional assignment wins over an earlier one, a later conditional one where its condition assigns, '
     'and an absent branch keeps the earlier value.',
     ['programs', 'inputs'], 'every nesting of branches and operators over branches, under every valuation',
     'The order of branch conditions is exercised in one or two tests by comparing text.',
     [D + 'reorder.py', D + 'replace.py', D + 'optimizer.py'],
     [('branch lifting', D + 'reorder.py: reorder'), ('constant/undefined replacement', D + 'replace.py'), ('merging of definitions', D + 'merge.py: mergeTree')],
     'exhaustive enumeration of branch trees x all valuations; values before and after compared', NREF)

prop('P15', 'The dataflow of combinational logic computes what the Verilog text computes',
     'For every design of continuous assignments, combinational always blocks and functions, and every input valuation, evaluating the '
     'dataflow expression of each signal gives the value that the language semantics gives that signal.',
     ['programs', 'inputs'], 'every combinational design to a size, every input valuation',
     'Semantics of nested if/case/loops/blocking assignments is a product space; the tests compare printed trees of a few designs.',
     [D + 'bindvisitor.py', D + 'visit.py', D + 'dataflow.py', D + 'optimizer.py'],
     [('statement to dataflow binding', D + 'bindvisitor.py: BindVisitor')],
     'exhaustive enumeration of designs to a size and all valuations; dataflow evaluated against a reference interpreter of the text', NREF)

prop('P16', 'The dataflow of clocked logic gives the next state the Verilog text gives',
     'For every clocked always block and every current state and input, each register\'s dataflow gives the register\'s next value, and its recorded clock, '
     'reset and edges are the ones of the event control (clocks and resets are the signals whose names say so: clk or clock, rst or reset).',
     ['programs', 'inputs', 'configurations'], 'every clocked block to a size, every state and input, every clock and reset style',
     'Blocking/nonblocking order, partial writes and reset branches interact; the tests compare dumps of a few designs.',
     [D + 'bindvisitor.py', D + 'dataflow.py', D + 'visit.py'],
     [('blocking and nonblocking frames', D + 'visit.py: Frame'), ('clock and reset detection', D + 'bindvisitor.py: _createAlwaysinfo')],
     'exhaustive enumeration of clocked blocks x states x inputs; dataflow next state compared with a reference interpreter', NREF)

prop('P17', 'Elaboration creates exactly the instances, parameters and connections written',
     'For every hierarchy of modules, analysis yields exactly the instances, signals, parameter values and port connections that elaboration of the text gives, '
     'including overrides, generate loops and conditions, and instance arrays, and values pass through the hierarchy unchanged.',
     ['programs', 'configurations'], 'every hierarchy, override, generate and instance-array form to a size',
     'Hierarchy, parameters and generate multiply; tests have one or two of each.',
     [D + 'modulevisitor.py', D + 'signalvisitor.py', D + 'bindvisitor.py', D + 'dataflow_analyzer.py'],
     [('module, signal and binding visitors', D + 'modulevisitor.py, signalvisitor.py, bindvisitor.py')],
     'exhaustive enumeration of hierarchies to a size; instances, terms, constants and values compared with a reference elaborator', NREF)

prop('P18', 'Merging partial assignments gives every bit its own driver',
     'For every way of assigning disjoint parts of a signal in any order, the merged dataflow of the signal gives each bit the value of the assignment that drives it.',
     ['programs', 'inputs'], 'every split of a vector into assigned parts, every order and range direction',
     'Ordering and adjacency of parts are combinatorial; tests have one or two splits.',
     [D + 'merge.py', D + 'optimizer.py', D + 'walker.py'],
     [('merging of bindings', D + 'merge.py: VerilogDataflowMerge.getMergedTree')],
     'exhaustive enumeration of all partitions of a vector and assignment orders; merged tree evaluated per bit under all valuations', NREF)

prop('P19', 'Walking, subsetting and graphing reach exactly the signals that matter',
     'Walking back from a signal expands exactly its transitive drivers, ending at inputs, constants and registers; the subset for a set of signals is closed under '
     'the signals its definitions use and contains nothing unrelated; and the graph has an edge exactly where the dataflow has a dependency.',
     ['programs'], 'every dependency structure of signals to a size, every starting set',
     'Reachability over arbitrary dependency graphs (including cycles); tests walk one graph.',
     [D + 'walker.py', D + 'subset.py', D + 'graphgen.py'],
     [('tree walking', D + 'walker.py: walkTree'), ('closure', D + 'subset.py'), ('graph generation', D + 'graphgen.py')],
     'exhaustive enumeration of dependency graphs to a size; closure compared with a reference reachability computation', NREF)

prop('P20', 'Extracted state machines have exactly the reachable transitions of the design',
     'For every finite state machine design, control-flow analysis finds the state register and reports exactly the transitions between states that the text allows, each with a '
     'condition that is true exactly when it is taken, and exactly the loops of that graph.',
     ['programs', 'inputs'], 'every small state machine: states, guards, transition functions, encodings and coding styles',
     'The set of machines is a product of transition functions; tests have a few.',
     [A + 'controlflow_analyzer.py', A + 'splitter.py', A + 'transition.py'],
     [('transition extraction', A + 'splitter.py, transition.py'), ('loop search', A + 'controlflow_analyzer.py: getLoops')],
     'exhaustive enumeration of small machines; extracted graph and conditions compared with direct simulation of the text', NREF)

prop('P21', 'Value-range and condition inference is exact set reasoning',
     'For every combination of comparisons, conjunctions, disjunctions and negations of conditions, the inferred set of values that satisfy it is exactly the '
     'set that makes it true.',
     ['inputs', 'programs'], 'every condition tree to a size, every value',
     'Interval algebra is a product of bounds and operators; tests do not touch it directly.',
     [U + 'inference.py', A + 'transition.py'],
     [('interval algebra', U + 'inference.py'), ('transition condition algebra', A + 'transition.py')],
     'exhaustive enumeration of conditions x all values, compared with direct evaluation', NREF)

prop('P22', 'Active-condition analysis reports exactly when a signal gets an active value',
     'For every signal whose assignments are guarded by state machines, the pairs (state, condition) reported for a machine hold, outside of reset, only when the text gives the signal a value of the kind asked for '
     '(a constant above a bound, any change, no change); and whenever the text does so depending on the state, one of the reported pairs holds.',
     ['programs', 'inputs'], 'every nesting of guarded assignments, every kind of question, every valuation of states and inputs',
     'Conditions come from nested branches and their negations; no test runs the analysis.',
     [A + 'active_analyzer.py', A + 'splitter.py', A + 'transition.py'],
     [('active condition extraction', A + 'active_analyzer.py: getActiveConditions'), ('splitting, filters, reset removal', A + 'splitter.py'), ('state and condition parts', A + 'transition.py: walkCondlist')],
     'exhaustive enumeration of guarded designs x valuations; reported pairs are evaluated and compared with the reference decision, which is checked against the interpreter of the text', NREF)

prop('P23', 'Hierarchical names are resolved and compared exactly',
     'Scope names can be extended, sliced, compared, printed and looked up without loss: two names are equal exactly when all their parts are (a part of kind any equals one of every kind), and a printed name selects its signal when it is given back. '
     'A plain or hierarchical name that a design reads or assigns denotes the declaration the scope rules of Verilog select: innermost first, hierarchical names from the referring scope outwards.',
     ['inputs', 'programs'], 'every pair of scope chains to a length over all kinds of scope parts; every nesting of scopes and every set of scopes that declare a name',
     'Relations on pairs of chains, and shadowing depends on which of the nested scopes declare the name; tests use one instance each.',
     [U + 'scope.py', U + 'util.py', D + 'visit.py', D + 'bindvisitor.py', D + 'signalvisitor.py'],
     [('ScopeLabel, ScopeChain', U + 'scope.py'), ('toTermname', U + 'util.py'), ('FrameTable searches', D + 'visit.py: searchScopeChain, searchConstantDefinition'),
      ('name resolution', D + 'bindvisitor.py: searchTerminal, searchScopeTerminal')],
     'explicit enumeration of scope chains and pairs against tuple algebra, and of nested-scope designs against a reference resolver that is replayed on the simulator', NREF)

prop('P24', 'Code regenerated from dataflow computes what the original design computes',
     'For every design whose dataflow is turned back into Verilog (as a whole, or only what a signal depends on), the generated text is legal and every signal has the value it has in the '
     'original, for every input and state. Outside are designs whose dataflow has no text: concatenated targets, overlapping parts, wildcard matches, variable part selects, selections from gate inputs.',
     ['programs', 'inputs'], 'every design, every valuation of inputs and registers, every signal as the target',
     'The tests compare the text of a few designs with an earlier one; whether the text means the same is never asked.',
     [D + 'dataflow_codegen.py', D + 'dataflow.py', D + 'subset.py', D + 'optimizer.py'],
     [('text of declarations, bindings, trees', D + 'dataflow.py: tocode, ' + D + 'dataflow_codegen.py'), ('what a signal depends on', D + 'subset.py'), ('resolved constants', D + 'optimizer.py: resolveConstant')],
     'exhaustive enumeration of designs; original and regenerated text run side by side in a simulator under all valuations', NREF)

prop('P25', 'The same input gives the same output, byte for byte, in every process',
     'For every design, every tool (parser dump, code generator, dataflow, graph, control-flow) writes the same bytes in every run, whatever the hash seed of the interpreter.',
     ['configurations', 'schedules'], 'every order in which unordered collections can be traversed (every hash seed)',
     'Tests run once in one process; an order that depends on hashing shows only between runs.',
     ['pyverilog/'],
     [('ordered traversal of terms and bindings', D + 'dataflow.py, ' + D + 'graphgen.py')],
     'enumeration of hash seeds/iteration orders x designs x tools; outputs of separate processes compared byte for byte', NREF)


prop('P26', 'Dataflow trees, terms and bindings compare, hash and print exactly',
     'Two trees, terms or bindings of the dataflow are equal (and then have equal hashes) exactly if all their parts are equal, whatever their kinds; children gives every part in order; the code of '
     'each means what it holds; collecting declarations and bindings in any order loses and doubles none of them.',
     ['inputs', 'histories'], 'every pair of trees, terms and bindings; every order of collecting them',
     'Sets and dictionaries of trees silently merge what compares equal; the tests never compare two trees.',
     [D + 'dataflow.py', U + 'signaltype.py'],
     [('tree nodes', D + 'dataflow.py: DF* __eq__, __hash__, children, tostr, tocode'), ('terms and bindings', D + 'dataflow.py: Term, Bind, DataFlow'), ('always blocks', 'pyverilog/dataflow/visit.py: AlwaysInfo')],
     'enumeration of all trees to a depth, all terms and bindings over small sets; all pairs compared against structural equality of their descriptions; code read back by the real parser', NREF)


def main():
    from mc.registry import CHECKS
    na = {}
    p = os.path.join(HERE, 'tools', 'not_applicable.json')
    if os.path.exists(p):
        na = json.load(open(p))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps({
                'id': x['id'], 'title': x['title'], 'statement': x['statement'],
                'quantifier': {'over': x['over'], 'text': x['qtext']},
                'why_tests_cant': x['why'],
                'anchors': {'files': x['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in x['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: every check drives the public API', 'source_commits': []},
         'checks': [], 'not_applicable': []}
    for x in P:
        if x['id'] in CHECKS:
            m['checks'].append({
                'property': x['id'], 'quick_cmd': './check.sh %s quick' % x['id'],
                'thorough_cmd': './check.sh %s thorough' % x['id'],
                'evidence_file': 'evidence/%s.json' % x['id'],
                'technique': 'explicit-state model checking: ' + x['technique'],
                'level': CHECKS[x['id']][2], 'level_note': x['note']})
        else:
            m['not_applicable'].append({'property': x['id'], 'reason': na.get(x['id'], 'the check is not built yet')})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(m['checks']), 'claimed', [n['property'] for n in m['not_applicable']])


main()
