AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
PROPS = [
 dict(id='C19', design='As C04, with the grade of the blade enumerated and the sign and predicate paths compared with the formula.',
      title='Projection, reflection, rotation, cross product and norms follow their formula',
      statement='For every multivector A and non-null blade B of grade s: projection into B is (A < B) B^-1, reflection in B is the sum over the grades r of (-1)**(r (s+1)) B A_r B^-1, rotation by a bivector t is exp(-t/2) A exp(t/2), '
                'and cross(u, v) is -I (u ^ v); arguments that are not non-null blades (or two vectors of one three-dimensional algebra) are rejected. '
                'norm2 is the absolute value of the scalar part of rev(A) A, norm its root, mag2 the sum over all grades of the absolute values, mag its root; a sign is dropped only where it is known or the hint says so. '
                'is_blade and is_versor answer by their documented criterion for every multivector.',
      quantifier=dict(over=['inputs'], text='all multivectors, all blades of every grade, all hints'),
      why_tests_cant='The sign of a reflection depends on two grades, the sign of a norm on the sign of a symbolic quantity; tests reflect vectors in planes and take norms of a few Euclidean elements.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/metric.py'], state=[],
                   mechanism=[dict(name='blade operations', where='galgebra/mv.py Mv.project_in_blade, reflect_in_blade, rotate_multivector, cross'),
                              dict(name='norms', where='galgebra/mv.py Mv.qform, sp, norm2, norm, mag2, mag; galgebra/metric.py abs_with_hint, square_root_of_expr'),
                              dict(name='predicates', where='galgebra/mv.py Mv.is_blade, Mv.is_versor')],
                   observe_at=['the value of the method or the exception'], hook_needed=None),
      technique=AI + 'value numbering over the free geometric algebra, grade of the blade enumerated; predicates by truth tables of their elementary tests on each path',
      note=COMMON + 'Grades 0 to 6 of blade and operand (the signs have period 2). Geometric products, exponentials and grade selections are uninterpreted here.'),
 dict(id='C20', design='Every path of exp is classified by the facts it established (kind of square, hint, number of terms); the arguments and coefficients of the cosine/sine pair are squared and compared.',
      title='exp of a multivector whose square is a scalar is the exponential series',
      statement='Whenever exp(A) returns for a multivector A, it is cosh(n) + sinh(n) A/n with n**2 = A**2, or the equal value cos(n) + sin(n) A/n with n**2 = -A**2, or 1 + A where A**2 = 0, for every hint, number of terms and kind of square. '
                'A multivector whose square is not a scalar is rejected.',
      quantifier=dict(over=['inputs'], text='all multivectors with scalar square, both hints'),
      why_tests_cant='exp has a dozen paths selected by the number of terms, the kind and sign of the square and the hint; tests evaluate three or four of them.',
      anchors=dict(files=['galgebra/mv.py'], state=[], mechanism=[dict(name='exponential', where='galgebra/mv.py Mv.exp')], observe_at=['the value of exp'], hook_needed=None),
      technique=AI + 'normal form of the value on each path, with the square of the multivector a scalar where the path has tested it',
      note=COMMON + 'Square roots are formal (n is any root); simplification calls are taken to preserve value.'),
]
