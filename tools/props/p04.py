AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
PROPS = [
 dict(id='C09', design='Operators are finite lists of (arbitrary multivector, multi-index); every operation is interpreted and the coefficient of each multi-index compared with the Leibniz composition.',
      title='Differential operators compose, add and apply as their definition says',
      statement='For multivector differential operators with arbitrary multivector coefficients, in either direction: each product of an operator with an operator, multivector or scalar is the composition or application the direction demands, '
                'by the Leibniz rule with the coefficients in the written order; sums, differences, negation and scalar quotients act term by term, and the direction is kept. '
                'Operators of opposite direction are never combined; consolidating, simplifying, differentiating and splitting into components keep the operator; equality holds exactly when all coefficients agree.',
      quantifier=dict(over=['inputs', 'programs'], text='all multivector coefficients, both directions, all products; derivatives up to second order'),
      why_tests_cant='The tests apply grad and a few operators to fields in Euclidean algebras, nearly always from the left; compositions with non-constant coefficients of the left-differentiating kind are not sampled.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/dop.py'],
                   state=[dict(name='terms and cmpflg', meaning='coefficients with multi-indices, and the direction', where='galgebra/mv.py Dop')],
                   mechanism=[dict(name='operator algebra', where='galgebra/mv.py Dop.Add, Dop.Mul and operators; Dop.consolidate_coefs, components, Dop_mv_expand'),
                              dict(name='terms', where='galgebra/dop.py _consolidate_terms, _merge_terms, _eval_derivative_n_times_terms')],
                   observe_at=['the value of the operation'], hook_needed=None),
      technique=AI + 'coefficients per multi-index in the free algebra, compared with the composition by the Leibniz rule',
      note=COMMON + 'Operators of up to seven terms of order at most two; products and derivatives of multivectors are uninterpreted.'),
 dict(id='C22', design='As C09 for operators with scalar coefficients and for single partial derivatives.',
      title='Scalar and partial differential operators compose, add and apply correctly',
      statement='A partial or scalar differential operator applied to an expression or multivector is the sum of its coefficients times the partial derivatives; the product of two operators is their composition (Leibniz rule), and a scalar from the left multiplies the coefficients. '
                'Sums, differences and negation act term by term, a scalar counting as an operator of order zero. '
                'Consolidating, simplifying and differentiating keep the operator, the order is the number of derivatives, and equality holds exactly when coefficients and derivatives agree.',
      quantifier=dict(over=['inputs', 'programs'], text='all coefficient expressions, all operators of these two kinds, both operand orders'),
      why_tests_cant='The tests combine a few first order operators with constant coefficients; mixed kinds on either side, higher orders and repeated terms are not sampled.',
      anchors=dict(files=['galgebra/dop.py'], state=[dict(name='pdiffs, order, terms', meaning='multi-index and coefficients', where='galgebra/dop.py Pdop, Sdop')],
                   mechanism=[dict(name='operator algebra', where='galgebra/dop.py Sdop, Pdop operators, _consolidate_terms, _merge_terms, _eval_derivative_n_times_terms')],
                   observe_at=['the value of the operation'], hook_needed=None),
      technique=AI + 'coefficients per multi-index in a commutative free algebra, compared with the composition by the Leibniz rule',
      note=COMMON + 'Operators of up to seven terms and order up to three; derivatives of expressions are uninterpreted, linear and obey the product rule.'),
]
