C, IO, PL = 'igakit/cad.py', 'igakit/io.py', 'igakit/plot.py'
FILEST = ('file', 'the stored bytes', IO + ': PetIGA, VTK')

prop('P14', 'Circles and arcs are exact',
     'A circle or arc lies at the given radius from the given center in its plane, starts and ends at the angles given, turns in the direction of the sweep and is regular, '
     'for every sweep up to a full turn. The point at each break, and in the middle of each span, has the angle proportional to the parameter.',
     'inputs', 'all radii, centers, start angles, sweeps of either sign, and argument forms',
     'Tests check a default circle and two arcs; the number of spans and the weights change with the sweep, at boundaries that samples miss.',
     [C], [('arc spans and weights', C + ': circle')], [NET], ['igakit.cad.circle'],
     'Exhaustive over a lattice of angles with the floating-point neighbours of every case boundary.')

prop('P15', 'Revolution moves every point on its circle about the axis',
     'The revolved object is, at each parameter of the new direction, the section rotated about the axis line by the angle that the arc of the same sweep has there. '
     'This holds for every axis direction, every point of the axis, and sections of any degree, weights or position, points on the axis included.',
     'inputs', 'all axes (named, planar, spatial, both signs), points, angles, sections',
     'Tests revolve about one or two coordinate axes through the origin.',
     [C], [('frame and arc', C + ': revolve')], [NET], ['igakit.cad.revolve'],
     'Exhaustive over the alphabets against the Rodrigues rotation of the section.')

prop('P16', 'Constructions interpolate what they are built from',
     'Extrusions, rulings, sweeps, linear, bilinear and trilinear patches and Coons patches equal their defining formula at every parameter, and restrict to the given curves, '
     'surfaces and corners on their boundaries, whatever the degrees, knots, domains and weights of the ingredients.',
     'inputs configurations', 'all tuples of ingredients with different degrees, knots, domains and weights',
     'Tests build one or two examples of each with equal, non-rational ingredients.',
     [C], [('common representation', C + ': compat'), ('boolean sum', C + ': coons')], [NET, KNT],
     ['igakit.cad.line/bilinear/trilinear/extrude/ruled/sweep/coons'],
     'Exhaustive over tuples from the alphabets on the real code.')

prop('P17', 'Making objects compatible keeps every map',
     'Objects made compatible share domain, degree and knots along the chosen directions, each being the least that contains all of them, and every object keeps its map up to the affine change of domain. '
     'Doing it again changes nothing, and the arguments are not modified.',
     'inputs configurations', 'all tuples of objects and subsets of directions',
     'Tests try a few pairs with simple knots; unequal multiplicities, domains and end conditions need enumeration.',
     [C], [('union of breaks and multiplicities', C + ': compat')], [KNT], ['igakit.cad.compat'],
     'Exhaustive over pairs and triples; the model of knots is exact where domains map without rounding.')

prop('P18', 'Joining gives the two objects one after the other',
     'Joined objects that meet give one object over a domain that contains both in order: the first one unchanged, then the second one, whatever degrees, knots, end conditions, domains and weight scaling they have. '
     'Cutting an object and joining the pieces gives the object back, in any association.',
     'histories', 'all pairs of curves, all cuts and all representation changes of the pieces',
     'Tests join a few pairs of clamped pieces of the same degree and domain.',
     [C], [('shift, elevation, removal at the junction', C + ': join')], [NET, KNT], ['igakit.cad.join'],
     'Exhaustive over pairs and over cut/change/join histories on the real code.')

prop('P19', 'Grids and global refinement produce the stated spaces',
     'A grid is the identity map of its box (within the precision of rounding) with the number of spans, degree, continuity and periodicity asked for. '
     'Global refinement keeps the map and every existing break, splits each span as asked and gives the stated degree and continuity.',
     'inputs configurations', 'all dimensions, shapes, degrees, continuities, limits, wrapping, factors, and initial objects',
     'Tests refine one disc and print one grid; combinations of degree, continuity and multiplicity at old and new breaks are not settled.',
     [C], [('span knots', C + ': grid, refine'), ('elevation and insertion', B + ': elevate, refine')], [NET, KNT], ['igakit.cad.grid', 'igakit.cad.refine'],
     'Exhaustive over the configuration alphabets on the real code, knots compared with a model of breaks and multiplicities.')

prop('P20', 'What is read from a PetIGA file is what was written',
     'Writing an object or vector and reading it back gives the same degrees, knots, control points, weights and fields, up to the precision chosen, in every combination of precision, scalar and index type and of options. '
     'Writing again gives the same bytes, several objects in succession do not disturb one another, and writing changes nothing in the object.',
     'histories inputs', 'all objects of every dimension, formats, options and sequences of writes and reads',
     'Tests write one object per dimension with a couple of formats and no comparison of weights in most.',
     [IO], [('writer', IO + ': PetIGA.write'), ('reader', IO + ': PetIGA.read')], [FILEST], ['PetIGA.write/read/write_vec/read_vec'],
     'Exhaustive over objects x formats x options on the real code; files are the states.')

prop('P21', 'PetIGA files follow the binary format',
     'Every byte of a written file is what the PetIGA format prescribes for the object: identifiers, sizes, degrees, knots, dimensions and point data in big-endian order with the first direction running fastest. '
     'Vectors and sparse matrices stored by other programs in that format are read exactly.',
     'inputs', 'all objects, formats and options; all sparsity patterns of small matrices',
     'A round trip cannot see an error made twice, in the writer and in the reader.',
     [IO], [('layout', IO + ': PetIGA.write, read_vec, read_mat')], [FILEST], ['file bytes', 'PetIGA.read_vec/read_mat'],
     'Exhaustive against an independent decoder and encoder.')

prop('P22', 'Damaged PetIGA files are refused',
     'Reading a file that is cut short at any byte, or whose identifiers or sizes are inconsistent, raises an exception instead of returning an object. '
     'The reader leaves the file alone and works again on an intact one.',
     'crash_points fault_sequences', 'every prefix of every file; header faults; wrong format or reader',
     'No test reads a damaged file.',
     [IO], [('checks while reading', IO + ': PetIGA.read')], [FILEST], ['PetIGA.read/read_vec/read_mat'],
     'Every prefix of the bytes of each file (all crash points of a sequential write), and each header word times a list of faults.')

prop('P23', 'Visualization files hold the sampled geometry and fields',
     'A visualization file is a legacy VTK file that holds, in order and with consistent counts, the coordinates and every requested scalar and vector attribute of the object at the sampling points asked for. '
     'Values are those of evaluating the object there, with the first direction running fastest.',
     'inputs configurations', 'all objects, samplers, options, attribute selections',
     'Tests only check that writing does not fail.',
     [IO], [('sampling and layout', IO + ': VTK.write')], [FILEST], ['VTK.write'],
     'Exhaustive over options against an independent decoder and evaluator.')

prop('P24', 'Quadrature and tabulated bases are correct',
     'Gauss rules integrate polynomials exactly to their order on the interval, and tabulated bases hold the quadrature points and weights, offsets, and all basis functions and derivatives of each nonempty element or collocation point. '
     'Generated knot vectors have the stated elements, degree, continuity and periodicity.',
     'inputs configurations', 'all numbers of points, degrees, derivative orders and knot vectors',
     'Tests print or call them for one knot vector.',
     [F], [('rules', F + ': module IGA'), ('tabulation', F + ': BasisData, BasisDataCol, KnotVector')], [KNT], ['igalib.iga'],
     'Exhaustive over the alphabets against Cox-de Boor.')

prop('P25', 'Knot queries and collocation abscissae are consistent',
     'Breaks, multiplicities, span indices and span counts of every knot vector agree with each other and with the sequence itself, by exact comparison of values. '
     'Greville abscissae are knot averages, and Lagrange and Lobatto abscissae lie ordered in the spans and contain the breaks they must.',
     'inputs', 'all knot vectors, degrees, orders and axes',
     'Tests call these on a few clamped vectors.',
     [F, B], [('multiplicity scan', F + ': SpanIndex, FindMult'), ('abscissae', F + ': Greville and B: greville, lagrange, lobatto'.replace('B:', B + ':'))], [KNT],
     ['NURBS.breaks', 'NURBS.spans', 'NURBS.greville/lagrange/lobatto', 'igalib.bsp'],
     'Exhaustive over knot words on the real code against a model of multisets.')

prop('P26', 'Compiled kernels stay within their arrays',
     'No call that satisfies the documented preconditions reads or writes outside its arrays or uses memory that was never set, whatever the degree, multiplicities and sizes. '
     'No call of a public method or factory, valid or not, ends the interpreter; results do not depend on previous contents of memory.',
     'inputs histories', 'all kernel entry points with all small sizes, degrees, knots, and operation sequences',
     'An out-of-bounds access seldom changes a result that a test compares.',
     [F, 'igakit/igalib.pyf'], [('array extents', 'igakit/igalib.pyf'), ('loops', F)], [('work arrays', 'scratch arrays of the kernels', F)],
     ['igalib entry points', 'all public methods'],
     'The same exhaustive call spaces executed on builds instrumented with address checks, bounds checks and poisoned memory.')

prop('P27', 'Concurrent calls behave as some sequential order',
     'Kernels may run in several threads at once, without the interpreter lock: whatever the interleaving, each call returns what it returns alone, and objects that are only read are never changed. '
     'The kernels keep no state between calls.',
     'schedules', 'all pairs of operations and their interleavings up to a preemption bound',
     'Tests are single threaded, and preemption inside a kernel is not reproducible.',
     [F, 'igakit/igalib.pyf', B], [('no static data', F), ('lock release', 'igakit/igalib.pyf: threadsafe')], [NET],
     ['igalib entry points', 'NURBS queries'],
     'Stateless model checking of the real compiled code under a controlled scheduler.')

prop('P28', 'Plots receive the true geometry',
     'The data passed to the plotting backend are points of the object: its control net, its images of breaks, its lines and faces of constant parameter and its boundaries, each complete, in order and ending at the ends of the domain. '
     'Backend selection by name or alias picks that backend, an unknown name is refused, and objects are not changed by plotting.',
     'inputs configurations histories', 'all objects, plotting calls, axes and options; all sequences of backend selections',
     'The test suite does not plot.',
     [PL], [('sampling', PL + ': Plotter')], [('backend', 'module that draws', PL + ': Plotter.backend')], ['Plotter methods'],
     'Exhaustive over objects and options with a recording backend.')

prop('P29', 'Construction and attributes are faithful',
     'An object built from knots and control points, weights and fields in any accepted form reports exactly these, as dimension, degree, shape, control points, weights and fields, and control points are the weighted ones divided by their weights. '
     'Copies, clones and pickles are equal to the original and independent of it.',
     'inputs configurations', 'all accepted forms of arguments, dimensions, numbers of coordinates and fields',
     'Tests use one or two of the forms.',
     [B], [('constructor', B + ': __init__'), ('properties', B + ': control, points, weights, fields')], [NET, KNT], ['NURBS(...)', 'attributes', 'copy, clone, pickle'],
     'Exhaustive over forms and shapes.')

prop('P30', 'A write that returns has stored the complete file',
     'When storage fails at any byte, the writing call raises an exception; a call that returns normally has stored the complete file. '
     'The object is unchanged, and the same call succeeds once storage works again.',
     'fault_sequences crash_points', 'every byte position of every file at which storage can fail',
     'No test injects a storage fault.',
     [IO], [('writing', IO + ': PetIGA._write, VTK.write')], [FILEST], ['PetIGA.write/write_vec', 'VTK.write'],
     'Every fault point is enumerated with the real operating system refusing the byte.')
