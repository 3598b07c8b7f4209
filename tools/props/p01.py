AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
PROPS = [
 dict(id='C01', design='Entry points: every operator symbol over (Mv, Mv), (Mv, Dop), (Dop, Mv), (Dop, Dop), (Lt, Lt), (Mlt, Mlt) and every named two-operand function, with operands of two abstract algebras; oracle: every trace ends in a raise. A control run with operands of one algebra must return, otherwise the obligation is undecided.',
      title='Operands that belong to different algebras are always rejected',
      statement='Every binary operator and every two-operand function on multivectors, differential operators, linear transformations and '
                'multilinear functions raises an exception when its operands belong to two different algebras. No such call ever returns a value '
                '(comparison for equality may answer False).',
      quantifier=dict(over=['inputs', 'programs'], text='all operand values of any two different algebras, all operators and all two-operand functions'),
      why_tests_cant='The tests try a handful of operator/operand-type combinations; the guarantee is for every operator, operand kind, operand order and value.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/lt.py', 'galgebra/ga.py', 'galgebra/dop.py'],
                   state=[dict(name='Ga attribute of an operand', meaning='the algebra the operand belongs to', where='galgebra/mv.py Mv.Ga, Dop.Ga, galgebra/lt.py Lt.Ga, Mlt.Ga')],
                   mechanism=[dict(name='guard at the head of every operator', where='galgebra/mv.py Mv.__add__ ... Dop.Add, Dop.Mul; galgebra/lt.py Lt.__add__, Mlt.__add__')],
                   observe_at=['the exception of the operator or function'], hook_needed=None),
      technique=AI + 'all paths with differing algebras must end in a raise',
      note=COMMON + 'Algebras are distinguished by identity as the code does.'),
 dict(id='C04', design='The operator methods are interpreted with the six products of the algebra layer as free operations; the value of every trace is normalised and compared with the product the symbol denotes.',
      title='Operators and named products compute their product in operand order',
      statement='Each operator symbol and each named or mode-selected product of multivectors computes exactly the product it denotes '
                '(sum, difference, geometric, outer, inner, contractions, commutator, anticommutator, quotient, integer powers), with the operands in the written order. '
                'With a scalar operand on either side the result is the scalar multiple, scalar part or zero that the definition of the product gives. '
                'The result belongs to the algebra of the operands.',
      quantifier=dict(over=['inputs', 'programs'], text='all multivectors and scalars, all operators, both operand orders, all product modes'),
      why_tests_cant='Products are non-commutative and the tests compare a few concrete expressions, many of which are symmetric in the operands; scalar-on-the-left and mode-string paths are barely sampled.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/ga.py'], state=[],
                   mechanism=[dict(name='operator methods', where='galgebra/mv.py Mv.__mul__, __xor__, __or__, __lt__, __gt__, __lshift__, __rshift__, __truediv__, __pow__ and reflected versions'),
                              dict(name='mode-selected products', where='galgebra/mv.py Mv.Mul; galgebra/ga.py Ga.Mul, Ga.dot, Ga.er_blade, Ga.com')],
                   observe_at=['the value of the operator'], hook_needed=None),
      technique=AI + 'value numbering in the free algebra of the products',
      note=COMMON + 'Products of the algebra layer are free operations here; they are decided by other checks.'),
 dict(id='C06', design='The grade operations are interpreted on a sum with one term per grade; oracle: table of signs.',
      title='Grade projection, reversion and involutions have the defining signs',
      statement='Reversion, grade involution, Clifford conjugation, even part, odd part, scalar part, projection on a grade, the list of grades and the decomposition by grade '
                'multiply the grade-k part of every multivector by exactly the defining sign (or drop it), for every grade k. '
                'The result is the same whether the multivector is held in blade or in base representation, and also for a zero, scalar, single-term or basis-element multivector.',
      quantifier=dict(over=['inputs'], text='all multivectors of every dimension, in both representations'),
      why_tests_cant='The signs are periodic in the grade; the tests use dimension 2 and 3 and mostly generic multivectors, so grades above 3, degenerate shapes and base representation are unsampled.',
      anchors=dict(files=['galgebra/ga.py', 'galgebra/mv.py'], state=[],
                   mechanism=[dict(name='grade operations of the algebra', where='galgebra/ga.py Ga.reverse, even_odd, scalar_part, remove_scalar_part, split_multivector, grades, get_grade, grade_decomposition'),
                              dict(name='multivector wrappers', where='galgebra/mv.py Mv.rev, even, odd, g_invol, ccon, scalar, get_grade, grade')],
                   observe_at=['the value of the operation'], hook_needed=None),
      technique=AI + 'constant propagation of the grade over a multivector with one term per grade class',
      note=COMMON + 'Grade classes 0..12; the guards depend on the grade only through its residue, so higher grades repeat.'),
]
