#!/usr/bin/env python3
"""DESIGN.md from tools/design.md, the rows below, the evidence (bounds) and tools/catches.json"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROWS = {
'C01': ('set_free / get_free / set of scalar, vector and array parameters with symbolic bounds (4 finite/infinite combinations); round trips both ways, strictly inside, strictly increasing (two symbolic points), element-wise and in order, ValueError outside.',
        'the value itself: x = get_free(set_free(x)), v = get(set(v))', 'bounds far from zero, one-sided, values that saturate a shortcut branch'),
'C02': ('constructors of every kind with symbolic bounds/floors and every small shape; default legal, readable as unconstrained, explicit value held, ub <= lb refused.',
        'the constraint of the kind', 'tests use bounds around zero'),
'C03': ('set_vector/get_vector of every kind into another object of the same shape; declared sizes; dictval; row-major / lower-triangle order.',
        'the numbers written, in the documented order', 'orders that cancel in a round trip: the order itself is asserted'),
'C04': ('set_free then L L^T (leading minors positive above the floor), symmetry, round trip; reverse from an arbitrary PD matrix given as L L^T + floor; segments of vectors and arrays.',
        'Sylvester minors; the packed Cholesky factor', 'definiteness for every vector'),
'C05': ('rows positive and summing to one, round trips, each row depending on its own segment.', 'softmax with the first component as reference is *not* assumed; only positivity, sum and inversion', 'all reals, more rows than columns and the reverse'),
'C06': ('set_free, inner products with every constraint row, round trip, histories of set/set_free, the constraint matrix of the caller.', 'C v = 0 for symbolic full-rank C', 'arbitrary constraint rows and frames'),
'C07': ('free_to_vector_jac / _hess against automatic differentiation of set_free + get_vector through exact arithmetic, held value arbitrary, all kinds and nested dictionaries.', 'derivatives of the map itself (autograd on symbolic reals)', 'the sparse index layout at every shape'),
'C08': ('concatenation order, index ranges, segments written, by-name access, refusal of a used name, for all orders of members, nested.', 'concatenation of the members\' own vectors', 'member orders, nesting'),
'C09': ('every wrong length/shape around the declared one through every setter; ValueError and unchanged value.', 'held value', 'value after refusal; all neighbours of a shape'),
'C10': ('convert_vector_to_free_hessian with symbolic gradient and symmetric Hessian (dense, csr, csc, coo, with structural zeros).', 'J^T H J + sum g_k d2 v_k from C07\'s oracle', 'tiny gradients, zero blocks'),
'C11': ('fun_free*/fun_vector* with symbolic quadratics in either coordinates (all 2-jets) and transcendental functions, extra arguments; second evaluation at an arbitrarily close point.', 'chain rule by hand from the coefficients', 'nearby-point caches, argument passing in each method'),
'C12': ('fun_free_cond*, uncondition_x with arbitrary A (dense/sparse, non-symmetric), A changed in between.', 'A^T g(Ax), A^T H A', 'non-symmetric, singular A'),
'C13': ('values held after every derivative method and sequences of them, are plain and equal the evaluated point (base point for sensitivities; previous output for converters).', 'type and value', 'sequences'),
'C14': ('all coordinate combinations of gradients and mixed Hessians, bilinear-plus-quadratic functions with symbolic coefficients.', 'hand-written partial derivatives', 'different sizes, keyword arguments'),
'C15': ('converter values and Jacobians in 4 coordinate combinations.', 'chain rule with the conversion\'s own derivative', 'bounded outputs, dictionaries'),
'C16': ('derivative and prediction for symbolic quadratics (all 2-jets), cubics, exponentials; supplied Hessian; separate hyperparameter objective; coordinate flags.', '-H^{-1} C by cofactors', 'coordinate flags x supplied Hessians'),
'C17': ('derivatives of the optimum up to order 4 (5) for polynomials with a symbolic coefficient for every monomial (every jet); series; offsets; merging; other directions; flags.', 'implicit differentiation done independently on power series', 'orders above 2, merged terms'),
'C18': ('older sensitivity object: derivative, output derivative, linear / nonlinear predictions, hyper values moved.', '-H^{-1} C, J_out times it', 'order of assignments'),
'C19': ('moments, variances, entropies, set_from_*; every family and shape.', 'textbook formulas with symbolic mean and information', 'array axes'),
'C20': ('gamma, Wishart, Dirichlet, beta, multinoulli.', 'textbook formulas with uninterpreted digamma/log-gamma', 'sizes other than 2, stacked parameters'),
'C21': ('expected log priors at two arbitrary moment vectors (constants cancel).', 'expectation of the log density written in moments', 'off-diagonal terms'),
'C22': ('quadrature with symbolic nodes and weights; logit-normal, DP prior, logistic term.', 'explicit sums', 'batch axes of different lengths, thresholds'),
'C23': ('batched products, natural parameters, recovered means/covariances.', 'explicit sums; normal equations A m = b', 'group axes, single observations'),
'C24': ('root squares to the inverse of the limited matrix, symmetric, limits; installation.', 'U f(d) U^T for symbolic d and rotation U', 'negative and repeated eigenvalues, limits between them'),
'C25': ('what reaches minimize (stubbed adversary), what is returned, logging.', 'the objective and its derivatives at arbitrary points', 'any optimum the optimizer may report'),
'C26': ('chaining, stopping rule, flags, all results, for arbitrary tables of points/values/gradients.', 'the rule stated in the property', 'equalities between runs'),
'C27': ('mask splitting, covering, solver hand-over.', 'set algebra on masks; recorded arguments', 'every mask pattern'),
'C28': ('embedding, packing, index parameters, products.', 'entry by entry', 'float/large indices, zero entries'),
'C29': ('log contents, print callback, verbose evaluations.', 'the sequence given', 'repeated points, in-place changes'),
'C30': ('reads and deep copies.', 'value before', 'copies differentiated in either order'),
'C31': ('every array passed to or returned from every evaluation keeps its contents over later calls (aliases are compared entry by entry).', 'a copy taken at the call', 'in-place updates, reused buffers'),
'C32': ('the result after arbitrary histories equals that of a fresh object: pairs of methods, all methods, the same array overwritten, data changed, parameter moved, another object in between.', 'a fresh object', 'caches of any kind'),
}
out = ['| property | specified over the real code | oracle | beyond the tests | bounds (evidence) |', '|---|---|---|---|---|']
for k in sorted(ROWS):
    a, b, c = ROWS[k]
    try:
        bd = json.load(open('%s/evidence/%s.json' % (R, k)))['coverage']['bounds']
    except Exception:
        bd = {}
    out.append('| %s | %s | %s | %s | %s |' % (k, a, b, c, '; '.join('%s: %s' % (x, y) for x, y in sorted(bd.items())).replace('|', '/')))
s = open(R + '/tools/design.md').read()
s = s.replace('@@TABLE@@', '\n'.join(out))
try:
    cat = json.load(open(R + '/tools/catches.json'))
except Exception:
    cat = {}
rows = ['| planted bug | needs | caught by |', '|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    rows.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/'), cat.get(d, '(not tried)')))
s = s.replace('@@PLANTS@@', '\n'.join(rows))
cost = json.load(open(R + '/tools/cost.json')) if os.path.exists(R + '/tools/cost.json') else {}
s = s.replace('@@COST@@', '\n'.join(['| property | quick | thorough |', '|---|---|---|'] + ['| %s | %s | %s |' % tuple([k] + [x if isinstance(x, str) else '%s s' % x for x in v]) for k, v in sorted(cost.items())]))
open(R + '/DESIGN.md', 'w').write(s)
