AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
PROPS = [
 dict(id='C02', design='Every public operation is interpreted on operands with generic coefficients; everything reachable from the operands, their algebra and the global state is compared before and after, also on the paths that raise; printing is included.',
      title='Operations do not modify their operands, algebra or global state',
      statement='Evaluating an operation, function or query leaves the multivectors, linear maps and differential operators it is applied to with the value, grades and other observable attributes they had, on every path including those that raise. '
                'The metric, coordinates, basis and modes of the algebra, and the lists, dictionaries and matrices passed in, keep their contents as well, and stored tables only gain entries. '
                'Only the operations documented to modify something (setting a coefficient, changing the default dual or a global mode) do, and they modify only that.',
      quantifier=dict(over=['inputs', 'histories'], text='all operands, operations, modes and earlier operations'),
      why_tests_cant='Tests look at results and rarely look at an operand again afterwards; aliasing between a result and an operand shows up only in later operations.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/ga.py', 'galgebra/lt.py', 'galgebra/dop.py', 'galgebra/metric.py', 'galgebra/gprinter.py'], state=[dict(name='obj, i_grade, grades, is_blade_rep', meaning='value and cached classification of a multivector', where='galgebra/mv.py Mv'), dict(name='terms, lt_dict', meaning='terms of operators and images of maps', where='galgebra/dop.py, galgebra/mv.py Dop, galgebra/lt.py Lt')],
                   mechanism=[dict(name='operations', where='galgebra/mv.py Mv, Dop; galgebra/lt.py Lt, Mlt; galgebra/dop.py Sdop, Pdop'), dict(name='algebra', where='galgebra/ga.py Ga; galgebra/metric.py Metric')],
                   observe_at=['operands after an operation'], hook_needed=None),
      technique=AI + 'effects on the objects reachable from the operands, the algebra and the module globals',
      note=COMMON + 'Dimensions 2 and 3. Caches filled on demand are compared as additions, not as changes.'),
 dict(id='C08', design='Each operation is interpreted once for every combination of representations of its operands, and the values (expanded in blades) are compared with each other; no value is prescribed, so the rule is independent of the other properties.',
      title='Results do not depend on the internal representation of the operands',
      statement='A multivector may be held as a combination of blades or of products of basis vectors, and conversion between the two keeps its value. '
                'Every product, reverse, dual, inverse, projection, comparison, derivative, linear map or substitution gives the same multivector, or the same refusal, whichever form each of its operands is in.',
      quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all operands, metrics and combinations of representations'),
      why_tests_cant='The representation of an operand depends on which operations produced it, and in orthogonal algebras, which most tests use, the two forms coincide.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/ga.py', 'galgebra/lt.py'], state=[dict(name='is_blade_rep', meaning='representation of the value', where='galgebra/mv.py Mv')],
                   mechanism=[dict(name='conversion', where='galgebra/ga.py Ga.blade_to_base_rep, Ga.base_to_blade_rep, Ga.build_expansions; galgebra/mv.py Mv.blade_rep, Mv.base_rep')],
                   observe_at=['value of the results'], hook_needed=None),
      technique=AI + 'relational comparison of the abstract results over all combinations of operand representations',
      note=COMMON + 'Dimensions 2 and 3, oblique metrics; orthogonal algebras have one representation.'),
]
