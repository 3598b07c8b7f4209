AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
PROPS = [
 dict(id='C14', design='Each public operation is interpreted over generic exact operands with the numeric kinds of Python kept apart: a quotient of two Python integers, a decimal literal, a call of a numeric routine of a library is a taint, '
      'and its meeting an expression (as operand, coefficient, power or part of the returned value) is the violation; truncating division and int() of an expression likewise.',
      title='Operations on exact operands give exact results',
      statement='Operations whose operands are free of floating point numbers (symbols, integers, rationals) give results free of floating point numbers, decimal approximations and truncated quotients. '
                'This covers the products, inverses, powers, exponentials, duals, norms, derivatives, Christoffel symbols and linear, tensor and operator algebra, and the construction of the algebra from a metric, also one given as a string of fractions. '
                'The functions documented as decimal (the printing of eigenvalues and of Gram-Schmidt results, and the correlation) are excepted.',
      quantifier=dict(over=['inputs', 'configurations'], text='all operands with exact coefficients, all metrics'),
      why_tests_cant='Integer division and halves agree with exact arithmetic for many sample inputs, and sympy compares 0.5 and 1/2 leniently or prints them alike; only the flow of the number shows its kind.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/ga.py', 'galgebra/metric.py', 'galgebra/lt.py', 'galgebra/dop.py'], state=[],
                   mechanism=[dict(name='numbers', where='galgebra/ga.py Ga.com, blade_expansion_dict, reverse, e_sq; galgebra/mv.py inv, shirokov_inverse, hitzer_inverse, exp, __lshift__; galgebra/metric.py init_metric, Christoffel_symbols, g_inv')],
                   observe_at=['return values'], hook_needed=None),
      technique=AI + 'taint of floating point and truncated numbers into expressions',
      note=COMMON + 'Dimensions 2 and 3, 4 for the duals and closed inverses.'),
]
