"""Per property: the analyses besides the laws, and what the evidence says."""
from . import laws, c09, c10, c17, c25, c26, c27, c28, c29

LAW_RULE = ('law: the canonical value-flow summary of the current function (returned value, every write to an '
            'argument, attribute or global, every ordered external call, every raise with its guard) equals the '
            'summary of the reviewed reference definition, modulo ring/boolean/bit normal forms, renaming of bound '
            'indices and reading through helpers')

TRUSTED = ['numpy, scipy, numba and mpi4py primitives do what their documentation says (each is an uninterpreted or '
           'algebraically specified symbol in the summaries)',
           'arithmetic is exact: rounding is outside the properties',
           'the reference model in /verif/model was reviewed by hand against the property statement']

PROPERTIES = {}

LAW_TECH = 'symbolic value-flow summaries compared with a reviewed reference'
LAW_NOTE = ('Every function listed in the evidence is read from source into a normal form valid for all inputs and compared '
            'with the reviewed meaning; functions the interpreter cannot express, or whose difference it cannot prove, are '
            'listed as undecided and raise no alarm.')


def add(pid, explanation, analyses=(), rules=(), floor=1, level='other', assumptions=(), technique='', note=''):
    has = bool(laws.LAWS.get(pid))
    PROPERTIES[pid] = {
        'explanation': explanation, 'analyses': list(analyses),
        'rules': ([LAW_RULE] if has else []) + list(rules),
        'floor': floor, 'level': level, 'assumptions': TRUSTED + list(assumptions),
        'technique': '; '.join(x for x in (LAW_TECH if has else '', technique) if x),
        'level_note': ' '.join(x for x in (LAW_NOTE if has else '', note) if x)}


for _p in laws.LAWS:
    if laws.LAWS[_p]:
        add(_p, 'Every function that carries the property is read from the current source into a symbolic '
                'value-flow summary valid for all inputs and compared with the reviewed meaning.')

add('C10', 'An interprocedural alias analysis over the syntax tree computes, for every function of the package, which of the '
           'objects it is given it may change in place (through views, containers, attributes and package callees); the result '
           'is compared with the documented in-place updates. Temporary changes must be undone in a finally block.',
    analyses=[c10.run], rules=['every in-place update of an argument, attribute or module variable is in the table of documented '
                               'updates (engine/c10.py)', 'a parameter attribute set for the duration of a call is restored in a finally block'],
    floor=200, technique='interprocedural alias and effect analysis against a table of documented updates',
    note='May-analysis: an update it cannot see (through code outside the package) is not reported.')

add('C29', 'Every import, global name, attribute access and call of the library modules is resolved statically: scopes through '
           "Python's own symbol tables, package names through the module table, library names through a list of what the installed "
           'versions define, call sites against the signature of the function, class or record they resolve to.',
    analyses=[c29.run], rules=['an import names a module and a name that exist; other dependencies are declared or documented by a feature',
                               'a global name a function reads is defined by its module, a star import or Python',
                               'an attribute is defined by some class of the package or of the libraries; an attribute of self is set or defined by its class',
                               'a call passes arguments its callee accepts; an unpacked result has the length of the tuple returned'],
    floor=90, technique='whole-package name, attribute and signature resolution over syntax trees and symbol tables',
    note='Objects whose class is not known are checked against every class that has the attribute or method.')

add('C27', 'Definite assignment of every local variable over structured control flow, with tests remembered so that two branches '
           'on the same condition agree; and, for every function that allocates a buffer without values, the value-flow summary in which '
           'the unspecified content is a symbol of its own, compared with the reviewed meaning.',
    analyses=[c27.run], rules=['no path of a function reads a local variable it has not assigned (a loop may run zero times for its own body)',
                               'the content of a buffer nothing was written to does not appear in a result, a write or a call argument where the '
                               'reviewed meaning has none, and buffers are written at the reviewed positions'],
    floor=200, technique='definite-assignment dataflow; value-flow summaries with an explicit unwritten-content symbol')

add('C17', 'An abstract interpretation of every function that takes a communicator, every class that keeps one and every program that '
           'opens one tracks which values can differ between ranks; each collective, and each call of a caller-supplied function that '
           'may communicate, must be reached under tests, iteration counts and exits all ranks agree on.',
    analyses=[c17.run], rules=['no collective is control dependent on a value that can differ between ranks (rank, local vectors, random draws, '
                               'the root side of a reduction), and none follows an exit taken under such a test',
                               'a function that communicates and is driven by a library solver returns a value equal on all ranks'],
    floor=12, technique='interprocedural rank-taint analysis of the control around every collective',
    note='Sizes of local parts are taken to be equal where the code guards divisibility; which parameters are local is a reviewed table (engine/c17.py).')

add('C28', 'Every selector parameter is bound to values outside (and inside) its documented choices and the function is interpreted '
           'abstractly from the current source with everything else unknown, entering the package callees the value reaches: an invalid '
           'value must leave no normal exit, a documented one must leave one.',
    analyses=[c28.run], rules=['with an invalid selector every path of the function ends in an exception that no handler on the way takes '
                               '(loops over unknown collections run at least once)',
                               'with a documented selector some path returns',
                               'an exception a function raises is not taken by a handler of the same function that does not name it'],
    floor=150, technique='abstract interpretation of selector dispatch with constant propagation through callees and handlers',
    note='Invalid values are represented by a few constants per selector (unknown names, out-of-range and negative integers, None).')

add('C26', 'A typestate analysis over clang\'s syntax tree follows every path of every C function with the state, size and written '
           'ranges of each heap object; helpers are entered, the numerical routines have contracts for the lengths of their vectors. '
           'Indices and sizes are affine forms decided by Fourier-Motzkin elimination, with small sizes as witnesses.',
    analyses=[c26.run], rules=['an allocation is compared with NULL before its first use', 'released exactly once on every returning path, at the '
                               'address allocated, never used afterwards', 'elements are written before a routine reads them',
                               'every index lies inside its buffer under the loop bounds and tests on the way, and every vector is as long as its user needs'],
    floor=15, technique='path-sensitive typestate analysis of heap objects with affine bounds over the clang syntax tree',
    note='Data-dependent indices of the sparse kernels (CSR structure) are reported undecided.')

add('C25', 'Prototypes, definitions, globals and structures of every C source and header are read through clang and compared with each '
           'other, with the cffi cdef text, the ctypes argument types and the Cython declarations. Call sites are followed with an abstract '
           'interpretation of the Python functions around them: element type, contiguity, initialisation, what keeps an address alive, and '
           'which C variables have been set.',
    analyses=[c25.run], rules=['every declaration of a C function or variable has the parameter count, order and types of the definition',
                               'a structure declared in Cython has the fields of the C structure in order, with the same types, and the fields C reads are set',
                               'an array whose address is passed has the element type C expects, is contiguous (converted or required), has '
                               'been given values where C reads it, and is kept alive until the call',
                               'C variables a function reads are set before it is called'],
    floor=40, technique='cross-language declaration matching (clang AST, cffi, ctypes, Cython) and abstract interpretation of call sites',
    note='Array dimensions are decided under C26 (C side) and C24; argument values under C24.')

add('C09', 'Every prange loop of the Cython modules and of the numba functions compiled with parallel=True is followed once with a '
           'symbolic loop variable, through numba helpers, Cython functions and the C kernels. Positions written and read in shared arrays '
           'become polynomial forms of the loop variable, inner variables and sizes; two different iterations must not meet.',
    analyses=[c09.run], rules=['for every write to a shared array and every other access to it, the forms of two different iterations are separated '
                               'by a stride at least as large as what the inner loops cover (or by a mixed radix); otherwise small sizes for which they meet are the witness',
                               'a scalar set in a parallel loop is private to an iteration or a recognised reduction',
                               'no static or file-scope variable is written by a C function called in a parallel loop, and no shared C structure is changed in it'],
    floor=1, technique='dependence analysis of parallel loops with symbolic strides across Cython, numba and C',
    note='Different array parameters are taken not to overlap; positions the forms cannot express are reported undecided.')

NOT_APPLICABLE = {
    'C31': 'Numerical accuracy of LAPACK/ARPACK results quantifies over floating-point values no static argument in reach bounds; the structural part (routine, argument roles, status codes, ordering) is claimed under C12.',
    'C32': 'Convergence of a fixed-point iteration is a property of run-time values; step order and termination logic are claimed under C23.',
    'C33': 'Whether the minimiser reaches a stationary point depends on floating-point trajectories; objective and gradient are claimed under C24.',
    'C34': 'Unbiasedness of a random sample is a statement about a distribution over seeds, not visible in the shape of the code; averaging weights are claimed under C22.',
}
