"""The claimed properties and how each is decided."""

ASSUME = [
    'g++-11 translates the headers faithfully up to its -O2 GIMPLE (the representation the analysis reads)',
    'coefficients are real numbers: floating-point rounding, overflow, NaN and signed zero are outside the domain',
]
VALUE = ('value', 'outcome', 'does-not-compile', 'spec-split', 'accepted', 'strong-symbol')
RULE_VALUE = ('Forward dataflow over the SSA form of each program (global value numbering in an exact polynomial / rational-function normal form, '
              'traces partitioned by the sign of each compared difference); every output cell is compared with the normal form the specification gives, for all operand values at once.')

TECH = 'value-numbering dataflow analysis of the compiler IR against the specified normal form'
NOTE = ('Exact for all real coefficient values of every analysed program (no sampling); the programs enumerate algebras, grades, shapes and call forms. '
        'Trusts g++-11 up to its optimised GIMPLE and the reference definitions; ignores floating-point rounding.')


class Prop:
    def __init__(self, pid, build, explanation, rule=RULE_VALUE, min_probes=10, kinds=VALUE, assumptions=ASSUME, technique=TECH, level_note=NOTE):
        self.technique, self.level_note = technique, level_note
        self.pid, self.build, self.explanation, self.rule, self.min_probes, self.kinds, self.assumptions = pid, build, explanation, rule, min_probes, kinds, assumptions

    def probes(self, tier):
        return self.build(tier)


def table():
    from .props import products, algebra, models, maths, storage, lazy, misc, structure, types, output, join, runtime
    T = {}

    def both(*fs):
        return lambda tier: [p for f in fs for p in f(tier)]

    def add(pid, build, explanation, **kw):
        T[pid] = Prop(pid, build, explanation, **kw)
    add('C01', products.c01, 'Geometric product of general operands in every predefined algebra, in explicit signatures and in non-orthogonal general metrics, against the product derived from the metric matrix.')
    add('C02', products.c02, 'Outer and regressive products of general operands, which use no metric, in the predefined algebras.')
    add('C03', products.c03, 'Contractions, dot, Hestenes and scalar products of general operands against the grade parts of the geometric product.')
    add('C04', both(products.c04, types.typed_c04, runtime.runtime('C04')), 'Commutator product, inverse geometric product / division, and delta product of general operands.')
    add('C05', products.c05, 'Addition, subtraction, negation and scaling of general multivectors, in every storage form of the scalar.')
    add('C06', products.c06, 'Reversion, involution and conjugation of general multivectors.')
    add('C12', both(algebra.c12, runtime.runtime('C12')), 'Squared norm, norm, unit and inverse of k-vectors, single blades, even elements, scalars and constants in every predefined algebra, against the definitions.')
    add('C13', both(algebra.c13, runtime.runtime('C13')), 'Even versors, rotors and odd versors applied to general k-vectors and multivectors, against the sandwich products.')
    add('C14', algebra.c14, 'Dual and undual of general multivectors in every predefined algebra, with the default and explicit pseudoscalars, and their inverse relation.')
    add('C15', both(algebra.c15, runtime.runtime('C15')), 'Exponential of blades of every sign of square, with default and explicit tolerance; every control-flow path is compared with the closed form of its case.')
    add('C16', both(algebra.c16, types.typed_c16, runtime.runtime('C16')), 'Grade and largest grade of multivectors for every pattern of coefficients within and beyond the tolerance; compile-time bounds on grades.')
    add('C17', both(algebra.c17, types.typed_c17), 'Grade extraction at compile-time, runtime and computed grades, and of the largest grade, for every pattern of coefficients.')
    add('C20', models.c20, 'Vector constructors, basis vectors, pseudoscalars, scalars, the documented multivector types and conversions to native numbers, in every predefined algebra.')
    add('C21', models.c21, 'Named constants, their metric relations, Euclidean vectors and points of every predefined algebra, from coordinates of every form.')
    add('C22', models.c22, 'Parameters of flats of every dimension at every position and direction, in the homogeneous, conformal and Minkowski models, in primal and dual form.')
    add('C23', models.c23, 'Direction, center and squared radius of rounds and direction and point of tangents of every dimension, in primal and dual form, in the conformal and Minkowski models.')
    add('C24', both(models.c24, runtime.runtime('C24')), 'Projection and rejection in the Euclidean algebras and translation in the homogeneous ones, for general operands, with their geometric consequences.')
    add('C25', maths.c25, 'Every overloaded mathematical function, and compositions of them evaluated eagerly and lazily, of stored, native and constant scalars.')
    add('C26', both(maths.c26, types.typed_c26, runtime.runtime('C26')), 'Zero, null and unit tests of stored, constant, fractional and runtime-indexed components, with default and explicit tolerances and metrics, on every side of each threshold.')
    add('C07', storage.c07, 'Every product, sum and sign change of operands in every storage form, through every documented call form, against the reference on the same multivector.')
    add('C08', storage.c08, 'Products and sign changes of multivectors whose basis blade is a runtime value, for every index, against the same multivector with compile-time blades.')
    add('C09', lazy.c09, 'Scalar expressions of every shape over stored values and constants, built lazily so that they are rewritten as a whole, against the normal form of the expression as written.')
    add('C10', lazy.c10, 'Multivector expressions of lazy arguments in every storage form (repeated, constant, shared between expressions, nested contexts, runtime-indexed) against the same operations on the inputs.')
    add('C11', misc.c11, 'Components, order, constants and storage sizes of results of every operation on operands in every storage form; equality of the types of equal multivectors.')
    add('C18', both(misc.c18, types.typed_c18), 'Copies between every pair of shapes of two and three dimensions, constant, stored, native and runtime-indexed, for every pattern of coefficients within and beyond the tolerance.')
    add('C19', misc.c19, 'Calls received by the function object for expressions of every kind of component and every stopping point, and for the basis vectors of every blade.')
    DIAG = VALUE + ('dead', 'uninit', 'mutation', 'global', 'null', 'read-out')
    add('C27', structure.c27, 'Operands after every operation, copies, results and lazy contexts built from or returned out of temporaries; and, over a sample of the programs of every other property, every memory access on every path: reads of objects whose lifetime has ended or that are never written, stores to operands or to namespace-scope objects, outputs or branches depending on undefined values.',
        rule='Typestate of storage (declared, written, ended) along every path of the GIMPLE of each program, after inlining of the whole library: each read must reach a live written object, each store must be to a local object or the output; and outputs are compared with the specified normal form.',
        kinds=DIAG, technique='typestate dataflow over storage (lifetime, initialisation, effects) on the compiler IR')
    add('C28', structure.c28, 'Witness programs, each misusing one operation and paired with a correct use, submitted to the compiler: the misuses must be rejected and the correct uses accepted.',
        rule='Compile-fail witnesses: the type system of the library itself must make each misuse ill-formed; the positive sibling must be well-formed.',
        technique='compile-fail witnesses decided by the type checker', level_note='Decides each listed misuse exactly, for the compiler the library supports; other misuses are not covered.')
    add('C29', structure.c29, 'Every metric operation of every predefined namespace, with its own, the implied and every other metric of the same dimension, in translation units that include all algebras in two orders; products of two algebras in one function.')
    add('C30', structure.c30, 'Every public header alone, repeated, in pairs and together; the symbol tables of objects that include them and use every operation; operations under the documented configuration macros.',
        rule='Well-formedness witnesses submitted to the compiler; a query over the symbol table of each object (no strong external definition may come from a header); and, for configurations, comparison of the normal forms of outputs with the specification.',
        technique='type-checker witnesses and object symbol-table query; value-numbering dataflow for configurations', level_note='Exact for the listed inclusion orders, headers and configurations with g++-11.')
    add('C31', output.c31, 'What operator << and write insert into the stream, read back as an expression, for every basis blade of every model, storage form and runtime blade.',
        rule='Dataflow over the GIMPLE of each program with the sequence of stream insertions as an effect: on every path, the inserted text and values, read back with the grammar of the output, must be the components of the expression, each once, under the names of their basis vectors.',
        kinds=VALUE + ('range',), technique='effect dataflow over stream insertions, with value numbering, on the compiler IR')
    add('C32', join.c32, 'Meet, join, plunge and their fast forms of multiples of pairs of blades with every number of common and private directions, in every grade, along the axes and askew, in kvector, multivector and native storage, with default and explicit tolerances: both must span the known intersection and union and factor the operands.',
        rule='Forward dataflow over the GIMPLE of each program (the factorisation loops included, each path enumerated with the comparisons that select it, over symbolic factors of the blades): meet and join must have the normal forms of non-zero multiples of the known intersection and union whose product satisfies the factoring relation; the plunge that of its definition.',
        kinds=VALUE + ('range',))
    add('C33', types.c33, 'Products, sums, sign changes, constructors and divisions of operands of every pair of arithmetic types: the type of the result, and its value with every conversion to a narrower floating-point type (and, for integers, to any inexact type) kept apart.',
        rule='Type-level witnesses on the coefficient type of each result, and forward dataflow over the GIMPLE of each program with conversions to narrower or inexact types as uninterpreted functions: the outputs must have the normal form of the specification, free of such conversions.',
        technique='type-level witnesses and value-numbering dataflow with narrowing conversions kept apart')
    return T


def get(pid):
    return table()[pid]
