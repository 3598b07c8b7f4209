AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
PROPS = [
 dict(id='C26', design='The constructors are interpreted with uninterpreted metric entries, embeddings and scale factors, reading the metric, the dot products of the basis and the orthogonality flag of the resulting algebra; for strings every row form the documentation gives is enumerated.',
      title='The metric of a constructed algebra is the one its description says',
      statement='However the metric is given (string, list, matrix, embedding of a vector manifold, submanifold), the dot products of the basis vectors of the new algebra are those described, entry by entry and at every dimension, and it counts as orthogonal exactly when they say so. '
                'A normalised basis keeps the directions and squares to the signs of the metric, or to 1. '
                'Descriptions that do not fit the basis as documented are rejected, and the metric object, base algebra and embedding the caller passed are not modified.',
      quantifier=dict(over=['inputs', 'configurations'], text='all metrics, embeddings and submanifolds, all ways of giving them'),
      why_tests_cant='Tests and notebooks use a few metrics: unit signatures, spherical coordinates and one submanifold of flat space; oblique bases of embeddings, parameters named like coordinates and reuse of the matrix passed are not sampled.',
      anchors=dict(files=['galgebra/metric.py', 'galgebra/ga.py'], state=[dict(name='g, is_ortho, norm', meaning='metric, orthogonality and normalisation of the algebra', where='galgebra/metric.py Metric')],
                   mechanism=[dict(name='description', where='galgebra/metric.py Metric.__init__, Metric.metric_symbols_list, Metric.dot_orthogonal, Metric.normalize_metric; galgebra/ga.py Ga.sm, Sm.__init__')],
                   observe_at=['products of basis vectors'], hook_needed=None),
      technique=AI + 'metric of the constructed algebra over uninterpreted entries and embeddings, compared entry by entry with its description',
      note=COMMON + 'Dimensions 1 to 4 for strings, 1 to 3 for values, submanifolds of dimension 1 and 2.'),
 dict(id='C24', design='Whole algebras with uninterpreted metric; values of every grade pattern, with explicit sums listing repeated blades and their terms in either order, in blade and base representation. '
      'The tables of blades, bases, indices and grades are interpreted from their definitions. Products sympy leaves unevaluated are tracked, as they do not compare equal to their value (three recorded findings).',
      title='Multivectors are built from, and read back as, their blade coefficients',
      statement='A multivector made from a name has one coefficient, named after it, for each blade of the category, a function of the given coordinates if asked for; one made from values has those values, and unknown categories or superfluous values are rejected. '
                'Grades, components, coefficients, projections, comparison and the predicates on the value report its expansion in blades, whatever representation or order of terms it is stored in. '
                'Setting a coefficient changes only that coefficient and every later answer reflects it; functions and substitutions act on each coefficient.',
      quantifier=dict(over=['inputs', 'configurations', 'histories'], text='all coefficients, grade patterns, metrics, representations, and earlier queries'),
      why_tests_cant='Tests read a few components of small expressions in one representation; unsorted or repeated terms, base representation and cached classifications after an update are not sampled.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/ga.py', 'galgebra/metric.py'], state=[dict(name='obj, i_grade, grades, blade_flg, versor_flg', meaning='value and cached classification', where='galgebra/mv.py Mv')],
                   mechanism=[dict(name='construction', where='galgebra/mv.py Mv.__init__, _make_*; galgebra/ga.py Ga.mv, Ga.blades, Ga.bases, Ga.blade_super_scripts'),
                              dict(name='inspection', where='galgebra/mv.py Mv.characterise_Mv, get_coefs, blade_coefs, components, proj, set_coef, func, compare; galgebra/metric.py linear_expand')],
                   observe_at=['coefficients, names and grades'], hook_needed=None),
      technique=AI + 'construction and inspection of generic multivectors over algebras with uninterpreted metric, compared with their blade coefficients',
      note=COMMON + 'Dimensions 1 to 4; coefficients are sums of two atoms.'),
]
