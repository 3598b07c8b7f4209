AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
PROPS = [
 dict(id='C05', design='The product functions are interpreted on basis blades with symbolic indices of every order type and an uninterpreted metric; oracle: an independent implementation of the axioms in `sa/free.py`.',
      title='Products of blades agree with the axioms of geometric algebra for any metric',
      statement='For every metric, orthogonal or not and including degenerate ones, the geometric, outer, inner and scalar products and the left and right contraction of any two basis blades '
                'have the value the axioms of geometric algebra give. The products of sums extend these bilinearly with the operands in order, '
                'and the two changes between blades and products of basis vectors are inverse to each other.',
      quantifier=dict(over=['inputs'], text='all symmetric metrics, all pairs of basis blades, all linear combinations of blades'),
      why_tests_cant='The tests fix a handful of metrics (mostly Euclidean, dimension at most 4) and compare a few products; a wrong entry for one order type of indices or for a non-orthogonal metric is not sampled.',
      anchors=dict(files=['galgebra/ga.py'], state=[dict(name='product tables', meaning='cached products of basis elements', where='galgebra/ga.py BladeProductFunction, lazy_dict')],
                   mechanism=[dict(name='orthogonal products', where='galgebra/ga.py Ga product functions of basis blades'),
                              dict(name='reduction of base products', where='galgebra/ga.py reduce_basis, blade_expansion_dict, base_expansion_dict'),
                              dict(name='bilinear extension', where='galgebra/printer.py / ga.py update_and_substitute')],
                   observe_at=['Ga.mul, Ga.wedge, Ga.hestenes_dot, Ga.left_contract, Ga.right_contract, Ga.scalar_product'], hook_needed=None),
      technique=AI + 'interpretation in the free algebra over an uninterpreted metric, one case per order type of the basis indices, compared with the axioms',
      note=COMMON + 'The metric is uninterpreted. Index order types: orthogonal algebras up to 5 (thorough 6) distinct indices, non-orthogonal ones up to 3 (thorough 4).'),
 dict(id='C07', design='All eight conventions with I*I = 1 and I*I = -1; the constructor and dual_mode are interpreted for the pseudoscalar and the state.',
      title='Dual follows the chosen convention and undual undoes it; I is normalised',
      statement='Under each of the eight dual conventions dual(A) is the product of A with the pseudoscalar I or its inverse with the sign and on the side the convention names, and undual(dual(A)) = A, for I**2 = 1 and I**2 = -1. '
                'An unknown convention is rejected and leaves the current one in force. '
                'In every algebra with a nondegenerate metric I is a multiple of the outer product of the basis vectors, I**2 is 1 or -1 with the sign the signature demands, and I times its inverse is 1.',
      quantifier=dict(over=['inputs', 'histories'], text='all multivectors, all conventions, both signs of I**2, all nondegenerate metrics'),
      why_tests_cant='The tests check one or two conventions in Euclidean algebras where several conventions coincide; the sign of I**2 and the side of the product matter only for other signatures and dimensions.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/ga.py'],
                   state=[dict(name='dual mode', meaning='the convention in force (global)', where='galgebra/ga.py Ga.dual_mode_value')],
                   mechanism=[dict(name='dual and undual', where='galgebra/mv.py Mv.dual, Mv.undual'), dict(name='pseudoscalar', where='galgebra/ga.py Ga.dual_mode, Ga.__init__')],
                   observe_at=['dual, undual, Ga.i, Ga.i_inv'], hook_needed=None),
      technique=AI + 'value numbering in the free product with I*I = +1 or -1, one case per convention; path-partitioned interpretation of the constructor',
      note=COMMON + 'Geometric products are free operations here. The square of the unnormalised pseudoscalar is an unknown nonzero quantity of either sign.'),
 dict(id='C10', design='Function and alias are interpreted with methods (tables, constructors) as uninterpreted operations of their bound arguments; options are also checked to reach the value (dependence).',
      title='Function forms and deprecated names equal the operation they stand for',
      statement='Every function form of a multivector method (dual, grade, inv, norm, proj, rot, refl, rev, sp, ...) gives exactly the value of that method, with every argument and option in its documented place, '
                'and raises for an argument that is not a multivector. '
                'Every deprecated or shorthand name still gives the value of the operation it stands for.',
      quantifier=dict(over=['inputs', 'programs'], text='all multivector arguments, all option values, by position and by keyword'),
      why_tests_cant='The forms are thin wrappers which tests call for one or two of them with default options; a swapped argument or a dropped option in any other is not sampled.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/ga.py', 'galgebra/lt.py'], state=[],
                   mechanism=[dict(name='function forms', where='galgebra/mv.py module functions'), dict(name='deprecated names', where='galgebra/ga.py Ga deprecated properties and methods; galgebra/lt.py Lt, Mlt')],
                   observe_at=['the value of the function or name'], hook_needed=None),
      technique=AI + 'value numbering with the methods as uninterpreted operations of their bound arguments, the wrapper compared with the operation',
      note=COMMON + 'The methods themselves are uninterpreted here; they are decided by other checks.'),
 dict(id='C15', design='The value of every returning path times the multivector is normalised to 1 under the facts of the path; the closed forms are unrolled per dimension.',
      title='Inverse, division and negative powers are inverses whenever they return',
      statement='Whenever the inverse of a multivector, a quotient by a multivector, or one of the closed-form inverses (Shirokov, Hitzer) returns, the result is the inverse of the multivector (or the quotient by it): '
                'every path that returns has the form of the reverse over the scalar square, or of the closed formula for the dimension of the algebra. '
                'Where no such form applies (not invertible by the method, dimension too large, not a versor) an exception is raised.',
      quantifier=dict(over=['inputs'], text='all multivectors, all dimensions the closed forms are defined for'),
      why_tests_cant='Whether a path is taken depends on symbolic scalar tests; the tests invert a few vectors and versors, in few dimensions, and check the closed forms at random elements of dimension at most 5.',
      anchors=dict(files=['galgebra/mv.py'], state=[],
                   mechanism=[dict(name='inverse', where='galgebra/mv.py Mv.inv, Mv.__truediv__, Mv.__rtruediv__, Mv.__pow__'),
                              dict(name='closed forms', where='galgebra/mv.py Mv.shirokov_inverse, Mv.hitzer_inverse')],
                   observe_at=['the returned multivector or the exception'], hook_needed=None),
      technique=AI + 'normal form of A times the result under the path facts; the closed forms unrolled per dimension and compared with their definition grade by grade',
      note=COMMON + 'Dimensions 0 to 8 for the Shirokov form, 0 to 8 for the Hitzer form.'),
]
