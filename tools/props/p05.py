AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
CONC = ('The whole code path is interpreted over an algebra of fixed small dimension whose metric entries, coefficients and coordinate functions are uninterpreted atoms; '
        'results are elements of a free module over the rational functions in these atoms, where equality is decidable.')
PROPS = [
 dict(id='C18', design=CONC,
      title='Linear transformations are the outermorphism of the images they were given',
      statement='However a linear transformation is built (images, dictionary, matrix in either mode, function, versor, symbolic name), applying it to a multivector in any representation is the outermorphism of the images of the basis vectors, and its matrix has these images as columns. '
                'Sum, difference, scalar multiple and composition act pointwise; determinant, trace, adjoint, inverse and the singularity test satisfy their defining equations. '
                'Functions that are not linear and vector-valued, non-versors, matrices of the wrong size and inversion of a singular map are rejected; using a transformation changes nothing.',
      quantifier=dict(over=['inputs', 'configurations', 'programs'], text='all images, all metrics (general and orthogonal), all multivectors, all ways of construction'),
      why_tests_cant='The tests evaluate a few transformations with symbolic names in two or three fixed metrics; mixed constructions, partial dictionaries, non-orthogonal adjoints and base representation are not sampled.',
      anchors=dict(files=['galgebra/lt.py'], state=[dict(name='lt_dict', meaning='images of the basis vectors', where='galgebra/lt.py Lt')],
                   mechanism=[dict(name='construction', where='galgebra/lt.py Lt.__init__, Dictionary_to_Matrix, Matrix_to_dictionary, Symbolic_Matrix'),
                              dict(name='use', where='galgebra/lt.py Lt.__call__, __add__, __mul__, det, tr, adj, inv, is_singular, matrix')],
                   observe_at=['the image of a multivector, the matrix, determinant and trace'], hook_needed=None),
      technique=AI + 'images of generic multivectors over an algebra with uninterpreted metric, compared with the outermorphism',
      note=COMMON + 'Dimension 2 with a general metric and 3 with an orthogonal one (thorough: also 3 general).'),
 dict(id='C25', design=CONC,
      title='Tensors are the multilinear maps their components describe',
      statement='A tensor built from a name, vector, linear transformation, function or component expression evaluates, at any vectors, to the multilinear map its argument describes, whatever tensors were built before. '
                'Sum, difference, scalar multiple and the products act pointwise, the arguments of the second factor following those of the first; slot derivative, contraction, directional and covariant derivative obey their defining formulas. '
                'Adding tensors of different rank is rejected, and using a tensor changes neither it nor the algebra.',
      quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all components and arguments, all metrics, all ranks up to three, earlier tensors of other ranks'),
      why_tests_cant='The single tensor test prints a few expressions in one algebra; the value at arguments, slot bookkeeping between tensors of different ranks and non-orthonormal contractions are not sampled.',
      anchors=dict(files=['galgebra/lt.py'], state=[dict(name='_mlt_a, _mlt_pdiffs, _mlt_acoefs, dslot', meaning='slot variables shared by all tensors of an algebra', where='galgebra/ga.py Ga')],
                   mechanism=[dict(name='tensors', where='galgebra/lt.py Mlt.__init__, increment_slots, __call__, operators, pdiff, contract, dd, cderiv, remove_slot')],
                   observe_at=['the value at vectors'], hook_needed=None),
      technique=AI + 'value at generic vectors over an algebra with uninterpreted metric, compared with the multilinear map',
      note=COMMON + 'Dimension 2 with a general metric and 3 with an orthogonal one; ranks up to three; derivatives in flat coordinates. The printed component form is not covered.'),
]
