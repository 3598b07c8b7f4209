AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
PROPS = [
 dict(id='C12', design='The printing methods are interpreted on objects whose coefficients are known polynomials, so the text they assemble is a known string; how the library prints a coefficient, a symbol or a basis blade is fixed by a rendering of its own. '
      'The string is read back by a parser of the notation (signs, products by juxtaposition or *, quotients, powers, parentheses, derivatives) and compared, blade by blade and derivative by derivative, with the object.',
      title='Printed text and LaTeX denote the value that is printed',
      statement='The text and the LaTeX of a multivector, a differential operator, a linear transformation or a multilinear function, read with the usual precedence of operators, denote the value that is printed: no term, sign, coefficient, exponent or parenthesis is lost or added, '
                'and an operator shows on which side of its blades the derivatives act. '
                'LaTeX output has balanced braces, delimiters and environments; formats 2 and 3 put one grade or one blade on a line, titles precede the value, and formatted lists, tuples and dictionaries show every entry in order.',
      quantifier=dict(over=['inputs', 'configurations'], text='all coefficient shapes (zero, one, minus one, sums, negative sums, fractions, symbols), all grades, blade and base representation, all formats'),
      why_tests_cant='Printing concatenates pieces by the sign and shape of each coefficient; the combinations of shapes, sides and formats are far more than the few strings tests compare, and a lost sign or parenthesis still looks plausible.',
      anchors=dict(files=['galgebra/mv.py', 'galgebra/dop.py', 'galgebra/lt.py', 'galgebra/printer.py'], state=[],
                   mechanism=[dict(name='printing', where='galgebra/mv.py Mv._sympystr, Mv._latex, Dop._sympystr, Dop._latex, Dop_mv_expand; galgebra/dop.py Sdop and Pdop printing; galgebra/lt.py Lt and Mlt printing; galgebra/printer.py Fmt, _FmtResult, _WithSettings')],
                   observe_at=['return values'], hook_needed=None),
      technique=AI + 'string values computed exactly and read back by a parser of the notation',
      note=COMMON + 'Dimensions 2 and 3, orthogonal and oblique constant metrics, polynomial coefficients; how the library prints coefficients and symbols is taken as given.'),
]
