AI = 'abstract interpretation of the source (interprocedural value-flow, path-partitioned), '
COMMON = 'Static: decides the rule for every abstract path of the analysed functions; paths whose values leave the analysed vocabulary are reported as undecided in the evidence and never raise an alarm. '
PROPS = [
 dict(id='C03', design='About 170 operations that share one algebra and their operands are interpreted once each on a fresh algebra, and again inside histories (all in order, twice over; in reverse; shuffled) in which every operation occurs before and after every other one. '
      'Tables, cached properties and remembered gradients of the algebra are filled by the first operation that needs them and read by the later ones. A difference is narrowed down to one earlier operation where one suffices.',
      title='Values do not depend on which operations were evaluated before',
      statement='An operation evaluated on an algebra and operands after any other operations on the same algebra and operands has the value it has when it is evaluated first. '
                'This holds for products, duals, inverses, derivatives, gradients, Christoffel symbols, reciprocal bases, linear transformations, tensors and constructors, and for evaluating the same operation again with other arguments. '
                'The documented global settings (such as the dual convention) are not among those operations.',
      quantifier=dict(over=['histories', 'inputs'], text='all sequences of operations on one algebra; operands with generic coefficients'),
      why_tests_cant='A table keyed by too little gives the right value for whoever fills it; a test sees the fault only if it happens to evaluate the right two operations on one algebra in the right order.',
      anchors=dict(files=['galgebra/ga.py', 'galgebra/metric.py', 'galgebra/mv.py', 'galgebra/lt.py', 'galgebra/dop.py'],
                   state=['Ga._agrads', 'Ga._dbases', 'Ga._mlt_a', 'Ga.connect', 'product tables', 'cached properties of Ga and Metric'],
                   mechanism=[dict(name='caches', where='galgebra/ga.py lazy_dict, make_grad, blade_derivation, connection, table_dict; galgebra/_utils/cached_property.py; galgebra/lt.py Mlt.increment_slots')],
                   observe_at=['return values'], hook_needed=None),
      technique=AI + 'comparison of values along histories of operations on shared state',
      note=COMMON + 'Dimensions 2 and 3; 4 algebras; histories contain every ordered pair of the listed operations; the thorough tier adds shuffled histories.'),
 dict(id='C13', design='Scope analysis of every module, class body, function, lambda and comprehension; members of classes collected over the inheritance graph (assignments through self, and attributes assigned from outside, included); '
      'classes and functions of the installed libraries are read from their sources. The class of a receiver is inferred from self, annotations, isinstance tests, constructor calls and the documented field Ga only; code guarded by hasattr or a try statement is exempt.',
      title='Every name, attribute and call of the package resolves',
      statement='Whatever path is taken, no function of the package ends in an error because it refers to something that does not exist: every name read is bound, every imported name exists in the module it comes from, and no variable is read where nothing can have been assigned to it. '
                'Every attribute read from a module, a class or an object of a known class of the package exists, and every call of a function, method or class known statically fits its signature.',
      quantifier=dict(over=['inputs', 'configurations'], text='all functions and all their branches, including debug, printing and error branches'),
      why_tests_cant='Python resolves names and signatures when a line runs; the branches no test takes (debug output, error reports, rare options) hide misspelt or removed names.',
      anchors=dict(files=['galgebra/ga.py', 'galgebra/mv.py', 'galgebra/metric.py', 'galgebra/lt.py', 'galgebra/dop.py', 'galgebra/printer.py', 'galgebra/gprinter.py', 'galgebra/atoms.py'], state=[],
                   mechanism=[dict(name='references', where='galgebra/*.py all modules')],
                   observe_at=['exceptions'], hook_needed=None),
      technique='scope, member and signature analysis over the syntax trees of the package and of the libraries it imports',
      note='Static: a reference is reported only when its target is resolved and certainly lacks the name or the parameter; references through values of unknown class are not judged.'),
]
