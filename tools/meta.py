"""Writes properties.jsonl and MANIFEST.json from the table below (run: python3 tools/meta.py)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, F = 'igakit/nurbs.py', 'igakit/igalib.f90'

# id: (title, statement, quantifier over, quantifier text, why tests can't, files,
#      [(mechanism, where)], [(state, meaning, where)], observe_at, level_note)
P = {}


def prop(pid, title, statement, over, text, why, files, mech, state, observe, note):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = dict(title=title, statement=statement, over=over.split(), text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, note=note)


NET = ('control net', 'homogeneous control points, weights and weighted fields', B + ': NURBS.array')
KNT = ('knot vectors', 'one non-decreasing sequence per parametric direction', B + ': NURBS.knots')

prop('P01', 'Evaluation is the rational B-spline definition',
     'Evaluating a curve, surface or volume and its fields anywhere in its closed domain, through any public evaluation '
     'entry point, gives the value that the rational B-spline definition assigns to its knots, control points and weights. '
     'The result has the shape of the parameter arrays given, and does not depend on how the points are batched.',
     'inputs configurations',
     'all degrees, knot vectors (any multiplicity, clamped or not, any spacing), control nets, weights, fields and parameter '
     'values including breaks, domain ends and their floating-point neighbours',
     'The tests evaluate a few clamped cubic or quadratic objects and compare them with one another; the span choice at '
     'breaks, repeated knots, unclamped ends and mixed degrees are only reached by enumeration.',
     [B, F], [('span search and basis recurrences', F + ': FindSpan, BasisFuns'), ('tensor evaluation', F + ': Evaluate1/2/3'),
              ('argument handling', B + ': __call__, evaluate')], [NET, KNT], ['NURBS.__call__', 'NURBS.evaluate'],
     'Exhaustive inside the stated alphabets on a fresh build of the real code, against Cox-de Boor over all basis functions; '
     'control values are generic deterministic numbers, so agreement up to rounding on one value per basis function settles all of them by linearity.')

prop('P02', 'Derivatives of order 1 to 4 are exact',
     'Gradients, Hessians, third and fourth derivatives of geometry or fields equal the partial derivatives of the rational map, '
     'with every mixed partial in its place. At a break the value is the one of the span that starts there (the last span at the end of the domain).',
     'inputs configurations',
     'all degrees, knots, weights, dimensions, orders, field forms and parameter values',
     'The tests compare a few orders by finite differences or symmetry on non-rational clamped objects; the terms of the quotient rule of '
     'order 3 and 4 and the zero-derivative region above the degree are not settled by them.',
     [B, F], [('basis derivatives', F + ': DersBasisFuns'), ('tensor products and quotient rule', F + ': TensorProd1/2/3, Rationalize')],
     [NET, KNT], ['NURBS.gradient', 'NURBS.hessian', 'NURBS.derivative'],
     'Exhaustive over the alphabets against the general Leibniz rule on all multi-indices. One recorded finding: the fourth derivative of curves.')

prop('P03', 'Mapped derivatives are physical-space gradients',
     'With mapping enabled, first derivatives are taken with respect to physical coordinates: composed with the Jacobian of the '
     'geometry they give the parametric derivatives. Orders for which no mapping exists are refused with an exception, and never end the process.',
     'inputs configurations', 'all objects whose geometry is regular at the point, all field forms, all orders',
     'The existing tests use affine maps; curved and rational maps, all dimensions and all orders are not exercised.',
     [B, F], [('geometry map, determinant, inverse', F + ': GeometryMap, Determinant, Inverse'), ('refusal', B + ': hessian, derivative')],
     [NET, KNT], ['NURBS.gradient(mapped=True)', 'NURBS.hessian(mapped=True)', 'NURBS.derivative(mapped=True)'],
     'Exhaustive over the alphabets; regularity of the map is established by the reference before the comparison.')

prop('P04', 'Knot insertion and refinement keep the map',
     'Inserting or refining knots leaves the map of the object, its fields included, unchanged, and the resulting knots are exactly the union of the old ones '
     'and the values requested, in order. A value may be inserted only up to a multiplicity equal to the degree.',
     'inputs histories', 'all objects, directions, values in the closed domain, multiplicities, and every order of insertion',
     'Tests insert random values in random clamped objects; repeated values, breaks, neighbouring floats, domain ends and unclamped directions are hit only by chance.',
     [B, F], [('insertion', F + ': InsertKnot'), ('refinement', F + ': RefineKnotVector'), ('multiplicity', F + ': FindMult')],
     [NET, KNT], ['NURBS.insert', 'NURBS.refine'],
     'Explicit-state exploration; control points carry one identity field per basis function, so each transition is decided for all control values at once.')

prop('P05', 'Knot removal is exact up to the stated deviation',
     'Removing a knot removes at most the requested copies of exactly that value and moves the geometry by no more than the deviation. '
     'Redundant copies, those that insertion or elevation added, are all removable, and copies that carry geometry stay.',
     'inputs histories', 'all objects, directions, interior values, counts, and orders of removal',
     'The tests remove what they just inserted into random curves; partial removability, neighbours and rational or multi-component objects are not decided.',
     [B, F], [('removal with tolerance', F + ': RemoveKnot'), ('tolerance from weights', B + ': remove')], [NET, KNT], ['NURBS.remove'],
     'Explicit-state exploration of removal orders on the real code, plus a grid of perturbation sizes around the deviation.')

prop('P06', 'Degree elevation keeps the map',
     'Elevating the degree raises it by exactly the amount asked, leaves the map and its fields unchanged, and keeps the breaks and the continuity at each of them. '
     'Elevating in steps or at once gives the same object.',
     'inputs histories', 'all objects, directions, amounts and splits into steps',
     'Tests elevate a few random clamped objects; repeated interior knots, unclamped directions and high degrees are not covered.',
     [B, F], [('Bezier decomposition, elevation, knot removal', F + ': DegreeElevate'), ('clamping first', B + ': elevate')], [NET, KNT], ['NURBS.elevate'],
     'Exhaustive over knot patterns with identity fields. Recorded finding: distinct knots one float apart.')

prop('P07', 'Clamping and unclamping keep the map on the domain',
     'Clamping makes the chosen ends interpolatory and unclamping gives them the continuity asked for; neither changes the domain nor the map on it. '
     'Sides that were not chosen keep their knots, and clamping undoes unclamping.',
     'inputs histories', 'all objects, directions, sides, continuities and sequences of the two operations',
     'Tests try single-span or uniform curves; one-sided and partially clamped vectors, all continuities and repeated knots are not covered.',
     [B, F], [('clamping', F + ': ClampKnot'), ('unclamping', F + ': UnclampKnot')], [NET, KNT], ['NURBS.clamp', 'NURBS.unclamp'],
     'Explicit-state exploration with identity fields; knots are assumed well separated (extrapolation across a one-float gap is ill conditioned).')

prop('P08', 'Slices, extractions and boundaries are restrictions',
     'A slice is the restriction of the object to the interval, an extraction or a boundary its restriction to one parameter value, fields included. '
     'The results are valid objects whose interior knots are those of the original inside the interval.',
     'inputs histories', 'all objects, directions, intervals and values in the closed domain, and nested restrictions in every order',
     'Tests slice at a few random interior values; values on breaks, ends, neighbouring floats and unclamped ends are edge cases of the index arithmetic.',
     [B, F], [('slicing', B + ': slice'), ('corner cutting', F + ': CurvePntByCornerCut, Extract')], [NET, KNT],
     ['NURBS.slice', 'NURBS.extract', 'NURBS.boundary'],
     'Exhaustive over pairs of values from the alphabet on the real code.')

prop('P09', 'Reversal, remapping and axis permutations only reparametrise',
     'Reversing, remapping, transposing and swapping directions compose the map with the corresponding change of parameters, exactly at the ends of the domain. '
     'Applying the inverse operation gives the object back.',
     'inputs histories', 'all objects, axes, permutations, target intervals, and compositions',
     'Tests apply single operations to small clamped objects; compositions, asymmetric and unclamped knots, and rounding at the ends are not covered.',
     [B], [('flips and permutations', B + ': reverse, transpose, swap'), ('affine knots', B + ': remap')], [NET, KNT],
     ['NURBS.reverse', 'NURBS.remap', 'NURBS.transpose', 'NURBS.swap'],
     'Complete closure of the group of flips and permutations per object, then all remaps, on the real code.')

prop('P10', 'Transformations act as stated affine maps',
     'Translation, scaling, rotation, composition and inversion act on every point of the object as the affine map they name, applied in the order of the calls. '
     'Weights, knots and fields are not affected by affine maps.',
     'inputs histories', 'all transformation arguments and their forms, sequences of them, and all objects',
     'Tests check a few single transformations on one object.',
     ['igakit/transform.py', B], [('matrix algebra', 'igakit/transform.py: translate, scale, rotate, compose, invert'), ('application', B + ': transform')],
     [('matrix', '4x4 accumulated transformation', 'igakit/transform.py: matrix')], ['transform(...)', 'NURBS.transform/translate/move/scale/rotate'],
     'All sequences to the depth over the primitives, against independent matrix products.')

prop('P11', 'Any sequence of operations equals the composed model',
     'After any sequence of valid operations an object is well formed, and its map and fields equal the composition of the operations applied to the initial map. '
     'Nothing depends on the order in which representation-only operations were made.',
     'histories', 'all finite sequences over every operation, axis and a small set of arguments, from clamped and unclamped objects',
     'Tests make one operation at a time; defects need states that only a sequence produces (unclamped after removal, repeated ends after slicing, permuted axes).',
     [B, F], [('operations', B + ': every method'), ('kernels', F + ': module BSp')], [NET, KNT], ['every operation', 'NURBS.__call__'],
     'Bounded-depth explicit-state model checking of the real code, every transition validated against the abstract model.')

prop('P12', 'Operations touch only their target; queries are pure',
     'An operation changes the object it is called on and nothing else: not clones, copies, earlier results, nor any array given as an argument. '
     'Queries change nothing, depend on the value of the object only, and give the same answer every time; writing on a copy or on a computed result never reaches the object.',
     'histories', 'all sequences of operations over a heap of related objects and all array arguments',
     'Aliasing needs a second holder of the same memory and an operation that writes in place; tests look only at the object they operate on.',
     [B, 'igakit/cad.py', F], [('fresh arrays per operation', B + ': every method'), ('copies before in-place kernels', B + ': clamp, unclamp, refine')],
     [NET, KNT], ['all public methods and factories'],
     'Every history to the depth on the real code with byte-exact comparison of the whole heap; read-only arguments included.')

prop('P13', 'Invalid calls are refused and change nothing',
     'A call outside its documented domain (values outside the parametric domain, not-a-number, bad axis, side, order, continuity or shape, incompatible partners) raises an exception. '
     'It leaves the object, its clones and its arguments exactly as they were, and the object remains fully usable; a write refused for its options, indices or shapes leaves the file it names as it was.',
     'fault_sequences histories', 'all invalid calls of the alphabet, in every state reachable by short sequences of operations',
     'Tests make almost no invalid calls, and none looks at the object afterwards.',
     [B, 'igakit/cad.py'], [('argument checks', B + ': every method'), ('commit at the end', B + ': assignments to array and knots')],
     [NET, KNT], ['all public methods and factories'],
     'Every invalid call in every explored state on the real code; state equality is byte-exact.')

exec(open(os.path.join(ROOT, 'tools', 'meta2.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'meta2.py')) else None


def main():
    import sys
    sys.path.insert(0, ROOT)
    props, checks, na = [], [], []
    for pid in sorted(P):
        d = P[pid]
        props.append(dict(
            id=pid, title=d['title'], statement=d['statement'],
            quantifier=dict(over=d['over'], text=d['text']), why_tests_cant=d['why'],
            anchors=dict(files=d['files'],
                         mechanism=[dict(name=a, where=b) for a, b in d['mech']],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in d['state']],
                         observe_at=d['observe'], hook_needed=None)))
        path = os.path.join(ROOT, 'checks', pid.lower() + '.py')
        if not os.path.exists(path):
            na.append(dict(property=pid, reason='no check is registered yet'))
            continue
        src = open(path).read()
        level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
        tech = {'model_checking': 'explicit-state model checking: exhaustive bounded exploration of operation sequences on the real code, '
                                  'each transition conformance-checked against an abstract model',
                'exploration': 'model checking: exhaustive enumeration of a bounded input space on the real code against a reference model',
                'fault_enumeration': 'model checking: exhaustive enumeration of fault points on the real code'}[level]
        m = re.search(r"^TECHNIQUE = '(.*)'$", src, re.M)
        if m:
            tech = m.group(1)
        checks.append(dict(property=pid, quick_cmd='./check %s --tier quick' % pid, thorough_cmd='./check %s --tier thorough' % pid,
                           evidence_file='evidence/%s.json' % pid, technique=tech, level=level, level_note=d['note']))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na,
             hooks=dict(guard='none', enable='no hooks: the checks build the unmodified working tree of /repo', source_commits=[]),
             notes='Every check copies the Python sources of /repo and compiles the Fortran extension from /repo into a scratch '
                   'directory (about 3 s), explores its bounded space on that build with 8 processes, and removes the scratch directory. '
                   'known-findings.txt lists recorded findings and repaired defects.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(props), 'properties', len(checks), 'checks')


main()
