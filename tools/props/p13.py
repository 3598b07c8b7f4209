AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
na = lambda id, title, statement, over, text, why, files, mech, reason: dict(
    id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=files, state=[], mechanism=[mech], observe_at=['return values'], hook_needed=None), not_applicable=reason)
PROPS = [
 dict(id='C23', design='Printing, formatting and the printing switches are interpreted with a model of standard output, string buffers and the settings that all printers share. '
      'The settings, module variables, class attributes and standard output are compared before and after every printing call, on normal and exceptional exit; texts are compared with those after other calls. '
      'Capturing is decided on histories of switching, printing and tex(); the precedence on accepted, rejected and default orders.',
      title='Printing leaves the global state alone; switches set what they are given',
      statement='Formatting or printing an object, with any format and whether it returns or raises, changes no global printer setting, no setting of the printer used, no captured text and not standard output, so the text of an object does not depend on what was printed before; only the documented switches (Format, LatexFormat, gFormat, enhance_print, Fmt of a number) change settings, to exactly the values they are given. '
                'Text printed while LaTeX is switched on is captured in order and returned once by the next tex(), which gives standard output back. '
                'A precedence that def_prec accepts is the one in force; a rejected one changes nothing, and GAeval leaves the precedence and the names of the caller alone.',
      quantifier=dict(over=['histories', 'inputs'], text='all kinds of printed objects, formats and printers, all histories of switching, printing and collecting the output'),
      why_tests_cant='Leaked settings show only in what is printed later, in another test or in a session; tests print each object once in a fresh state.',
      anchors=dict(files=['galgebra/printer.py', 'galgebra/gprinter.py', 'galgebra/mv.py', 'galgebra/lt.py'], state=['GaLatexPrinter.latex_str', 'GaLatexPrinter.latex_flg', 'sys.stdout', '_eval_parse_order', '_eval_global_dict'],
                   mechanism=[dict(name='print state', where='galgebra/printer.py _WithSettings, Format, LatexFormat, enhance_print, GaLatexPrinter.redirect and restore, tex, def_prec, GAeval; galgebra/gprinter.py gFormat; Fmt methods in mv.py and lt.py')],
                   observe_at=['return values', 'global printer settings', 'standard output'], hook_needed=None),
      technique=AI + 'effect analysis of the global printing state, and typestate of the captured output over histories of calls',
      note=COMMON + 'Histories of up to six calls; the regular-expression rewriting of printed equations is interpreted only for plain words; outside IPython.'),
 dict(id='C27', design='The functions that are applied to coefficients are uninterpreted, so that the result shows which function was applied to what and how often; the simplifications of the library keep the value of an expression. The result is compared blade by blade, and for operators term by term, with the definition.',
      title='Simplification, substitution and functions act on each coefficient alone',
      statement='Applying a function, a list of simplification modes or the mode chosen with Simp.profile to a multivector or a scalar or multivector differential operator applies it exactly once, several in the order given, to the coefficient of each blade (of each term), and changes neither blades nor derivatives nor the direction of an operator. '
                'simplify, trigsimp, expand and collect keep the value; a substitution replaces the symbols in every coefficient, with the options given, and nothing else.',
      quantifier=dict(over=['inputs', 'configurations'], text='all multivectors and operators, all functions and lists of functions, all substitutions'),
      why_tests_cant='Tests simplify a few expressions with the default mode, where a skipped or repeated step is invisible because simplification is idempotent.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/dop.py', 'galgebra/metric.py'], state=['Simp.modes'],
                   mechanism=[dict(name='coefficient-wise operations', where='galgebra/mv.py Mv.func, simplify, subs, expand, trigsimp, collect, Dop.simplify, Dop.TSimplify; galgebra/dop.py Sdop.simplify, TSimplify; galgebra/metric.py Simp, apply_function_list, linear_expand_terms')],
                   observe_at=['return values'], hook_needed=None),
      technique=AI + 'with uninterpreted functions of the coefficients',
      note=COMMON + 'Dimensions 1 to 4, general, orthogonal and degenerate metrics with uninterpreted entries, polynomial coefficients; functions of the zero multivector are left open.'),
 na('C21', 'GAeval evaluates expressions with the chosen operator precedence',
    'For every expression string and every precedence accepted by def_prec, GAeval gives the value of the expression with its operators grouped by that precedence, from left to right among operators of equal precedence, parentheses being respected.',
    ['inputs'], 'all expression strings and all orders of precedence', 'Tests evaluate a handful of strings; the grouping of longer or nested ones is open.',
    ['galgebra/_utils/parser.py', 'galgebra/printer.py'], dict(name='precedence parser', where='galgebra/_utils/parser.py parse_line, _add_paren, _parse_paren'),
    'The grouping is produced by repeated regular-expression substitution on strings of unbounded length with generated tokens; no sound static argument over that language of strings is in reach, and interpreting chosen strings would be running a test. What GAeval does to the state of the process is decided under C23.'),
 na('C28', 'Equal multivectors compare equal however they were computed',
    'Two multivectors, operators or linear transformations that denote the same value for all values of their symbols compare equal, whatever form the expressions of their coefficients have.',
    ['inputs'], 'all pairs of expressions', 'Whether two expressions are equal depends on identities of the functions in them.',
    ['galgebra/mv.py', 'galgebra/metric.py'], dict(name='equality', where='galgebra/mv.py Mv.__eq__, Mv.is_zero; galgebra/metric.py Simp'),
    'Recognition of zero for expressions with elementary functions is undecidable and done by the simplifiers of sympy, which are outside the analysed source; comparison of polynomial coefficients is decided under C08 and C24.'),
 na('C29', 'Generated documents are accepted by LaTeX and displayed',
    'The document written by xpdf and gxpdf compiles without error with the named program, and the file shown or converted afterwards is the one compiled.',
    ['inputs', 'configurations'], 'all captured outputs, page sizes and platforms', 'Tests do not run LaTeX or viewers.',
    ['galgebra/printer.py', 'galgebra/gprinter.py'], dict(name='document', where='galgebra/printer.py xpdf, tex; galgebra/gprinter.py gxpdf'),
    'Depends on the LaTeX installation, the platform and external viewers; no static argument about the source decides it. Well-formedness of the LaTeX of single objects is decided under C12.'),
 na('C30', 'Every operation terminates, in time polynomial in the size of the result',
    'Products, inverses, derivatives and constructors terminate for every operand, with a cost bounded by the number of blades and the size of the coefficients.',
    ['inputs'], 'all operands and dimensions', 'Cost depends on the growth of intermediate expressions.',
    ['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/metric.py'], dict(name='tables', where='galgebra/ga.py lazy multiplication tables; galgebra/metric.py simplification calls'),
    'The loops run over blades and terms, but the cost of each step is that of sympy simplification, for which no bound is known.'),
]
