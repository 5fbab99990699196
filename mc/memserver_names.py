"""Entry points given unsuitable arguments by the memory checks."""
BAD = ['FindSpan', 'FindMult', 'FindSpanMult', 'EvalBasisFuns', 'EvalBasisFunsDers', 'SpanIndex', 'Greville', 'InsertKnot', 'RemoveKnot', 'Clamp',
       'Unclamp', 'RefineKnotVector', 'DegreeElevate', 'Extract', 'Evaluate0', 'Evaluate1', 'Evaluate2', 'Evaluate3', 'BasisData', 'BasisDataCol',
       'KnotVector', 'GaussLegendreRule', 'GaussLobattoRule'] + [n + d for n in ('Gradient', 'Hessian', 'ThirdDer', 'FourthDer') for d in '123']
