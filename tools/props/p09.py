AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
PROPS = [
 dict(id='C11', design='Each obligation is a small client call with an inadmissible argument, interpreted over generic values: no path may return. Beside it the nearest admissible call is interpreted, which has to return. '
      'The type of the exception is not prescribed.',
      title='Arguments outside the domain of an operation are refused',
      statement='Unknown categories, modes, product signs, switches, hints and keywords, superfluous or missing arguments, and operands of a kind the operation is not defined for raise an exception instead of giving a value. '
                'So do non-integer powers, inverses of, quotients by and projections into zero or null multivectors, blades that are not blades, versors that are not versors, functions that are not linear, singular maps, and operators or tensors that do not fit together. '
                'The admissible arguments next to these are accepted.',
      quantifier=dict(over=['inputs', 'configurations'], text='all operations with a restricted domain, all metrics including degenerate ones'),
      why_tests_cant='Tests exercise some of the error branches with one argument each; a guard that lets through a neighbouring value gives a plausible multivector.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/ga.py', 'galgebra/lt.py', 'galgebra/dop.py', 'galgebra/metric.py'], state=[],
                   mechanism=[dict(name='guards', where='galgebra/mv.py Mv, Dop and module functions; galgebra/lt.py Lt.__init__, Mlt; galgebra/dop.py Sdop, Pdop; galgebra/ga.py Ga.dual_mode, Ga.Mul, Ga.parametric; galgebra/metric.py Metric')],
                   observe_at=['exceptions'], hook_needed=None),
      technique=AI + 'client calls with inadmissible arguments must raise on every path, admissible neighbours must return',
      note=COMMON + 'Dimensions 2 and 3, degenerate and null bases, 5 to 7 for the closed inverse formulas.'),
]
