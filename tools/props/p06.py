AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
CURVED = ('The constructor of the algebra and everything the operation calls are interpreted over a coordinate system whose metric entries (or scale factors) are uninterpreted functions of the coordinates; '
          'a result is a multivector whose coefficients are rational functions of these functions and their derivatives, where equality is decidable. The oracle is the Levi-Civita connection of the metric.')
PROPS = [
 dict(id='C16', design=CURVED,
      title='Derivatives in curvilinear coordinates follow the connection of the metric',
      statement='In any coordinate system, orthogonal or oblique, normalised or not, the derivatives of the basis vectors and the Christoffel symbols are those of the metric. '
                'Partial derivatives, gradients, divergences and curls of multivector fields on either side differentiate the coefficients and the basis blades, contracted with the vectors reciprocal to the coordinate basis. '
                'Repeated and mixed derivatives, earlier derivatives and fields in base representation give the same answer, and differentiating changes neither the field nor the algebra.',
      quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all metrics as functions of the coordinates, all fields, all products, sides and orders of differentiation'),
      why_tests_cant='The tests and notebooks compare printed results in spherical and a few relativistic coordinate systems, all but one orthogonal; general metrics, oblique coordinates and indefinite normalised bases are not sampled.',
      anchors=dict(files=['galgebra/metric.py', 'galgebra/ga.py', 'galgebra/mv.py'], state=[dict(name='de, _dbases', meaning='derivatives of the basis vectors and cached derivatives of basis blades', where='galgebra/ga.py Ga')],
                   mechanism=[dict(name='connection', where='galgebra/metric.py Metric.Christoffel_symbols, derivatives_of_basis, normalize_metric; galgebra/ga.py Ga._update_de_from_rbasis'),
                              dict(name='differentiation', where='galgebra/ga.py Ga.pDiff, blade_derivation, grads; galgebra/mv.py Mv.diff, Mv.pdiff, Dop')],
                   observe_at=['derivatives of fields'], hook_needed=None),
      technique=AI + 'derivatives of generic fields over uninterpreted coordinate-dependent metrics, compared with the Levi-Civita connection',
      note=COMMON + 'Dimension 2 with a general metric and 3 with an orthogonal one (thorough: also 3 general).'),
 dict(id='C17', design=CURVED,
      title='Reciprocal bases and multivector derivatives are dual to the basis',
      statement='The reciprocal basis vectors, in every normalisation offered, and the reciprocal frame of any independent vectors are dual to the vectors they are built from, up to the documented factor; '
                'the inverse metric inverts the metric, the square of the pseudoscalar is the square it claims to be, also when the determinant of the metric is only named, and the pseudoscalar and its inverse invert each other. '
                'The derivative of a scalar that is linear in a multivector variable is the multivector of its coefficients in the reciprocal blades, from either side, whatever derivatives were built before.',
      quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all metrics, constant or coordinate-dependent, all frames, all multivector variables and sides'),
      why_tests_cant='The tests compute a few frames and gradients in fixed metrics; non-orthogonal bases of several dimensions, named determinants and cached derivatives of the other side are not sampled.',
      anchors=dict(files=['galgebra/ga.py'], state=[dict(name='r_basis, _agrads', meaning='reciprocal basis (unnormalised if oblique) and cached derivatives', where='galgebra/ga.py Ga')],
                   mechanism=[dict(name='reciprocal basis', where='galgebra/ga.py Ga.r_basis, r_basis_dict, mvr, g_inv, e_sq, ReciprocalFrame'),
                              dict(name='derivative', where='galgebra/ga.py Ga.make_grad, _reciprocal_of_basis_blade')],
                   observe_at=['products of reciprocal and given vectors, derivatives'], hook_needed=None),
      technique=AI + 'reciprocal vectors and derivatives over uninterpreted metrics, compared with their defining equations',
      note=COMMON + 'Dimensions 1 to 3; frames of general vectors in the plane and of a general triangular family in space. Which of the two documented normalisations a non-orthogonal basis uses is part of the check.'),
]
