#!/usr/bin/env python3
"""writes properties.jsonl (the text lives here so that it can be edited in one place)"""
import json, os
L = 'LinearResponseVariationalBayes/'
OUT = []


def prop(id, title, statement, over, text, why, files, mech, obs=(), state=None):
    assert len(title) <= 80, (id, len(title))
    OUT.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': [L + f for f in files],
                    'mechanism': [{'name': n, 'where': L + w} for n, w in mech],
                    'observe_at': list(obs), 'hook_needed': None,
                    **({'state': state} if state else {})}})


I, H, C = 'inputs', 'histories', 'configurations'

prop('C01', 'Box-constrained parameters: free and constrained values are a bijection',
     'For a scalar, vector or array parameter with any lower and upper bound (none, one or both), setting any finite unconstrained value gives a constrained value strictly inside the bounds, and reading the unconstrained value back returns exactly what was set; conversely any legal constrained value survives the round trip through its unconstrained value. '
     'The map is strictly increasing in each element and acts on every element separately, in the order of the elements. '
     'Reading the unconstrained value of a parameter whose constrained value lies strictly outside its bounds raises ValueError instead of returning a number. (Up to floating-point rounding and overflow.)',
     [I, C], 'all real unconstrained vectors, all constrained values, all pairs of bounds lb<ub including infinite ones, all sizes and shapes',
     'tests use a handful of random vectors with one or two fixed bounds; the claim is for every bound pair (negative, far from zero, one-sided) and every value.',
     ['Parameters.py'], [('constrain / unconstrain and their scalar and array forms', 'Parameters.py:15-63'),
                         ('set_free/get_free of ScalarParam, VectorParam, ArrayParam', 'Parameters.py:82-322')],
     ['get() after set_free()', 'get_free() after set()/set_free()'])
prop('C02', 'New parameters start at a legal value; impossible bounds are refused',
     'A newly created parameter of any kind, for any legal bounds, size or shape, holds a default value that satisfies its own constraint (strictly inside the bounds, positive definite with the diagonal above its floor, or rows summing to one), so its unconstrained value can be read at once. '
     'A value given at creation is the value held; creating a box-constrained parameter whose upper bound does not exceed its lower bound is refused with ValueError.',
     [I, C], 'all bounds, sizes, shapes and explicit values',
     'tests build parameters with a few bounds around zero only.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'WishartParams.py', 'NormalParams.py', 'DirichletParams.py', 'GammaParams.py'],
     [('get_inbounds_value', 'Parameters.py:66-79'), ('constructors', 'Parameters.py:83,155,235; MatrixParameters.py:138,202,324; SimplexParams.py:70; ProjectionParams.py:31')],
     ['get() right after construction'])
prop('C03', 'Packing a parameter into a flat vector loses nothing',
     'For every kind of parameter, the flat vector read from it, written into another parameter of the same shape, reproduces the value exactly, and any flat vector written reads back unchanged (symmetric matrices are packed by their lower triangle, row by row; arrays in row-major order). '
     'The declared flat and unconstrained sizes equal the lengths of the vectors actually produced, and the dictionary form carries the same numbers.',
     [I, C], 'all values, sizes and shapes of every parameter type',
     'tests round-trip single random values at one size per type; order mistakes that cancel in a round trip are not seen.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'ParameterDictionary.py'],
     [('set_vector/get_vector/vector_size/free_size/dictval', 'Parameters.py:103-322; MatrixParameters.py:157-481; SimplexParams.py:83-175'),
      ('vectorize/unvectorize', 'MatrixParameters.py:16-125')], ['get_vector()', 'get()', 'dictval()'])
prop('C04', 'Positive-definite matrix parameters stay positive definite, losslessly',
     'For a positive-definite matrix parameter, or a vector or array of them, with any diagonal floor, every real unconstrained vector is mapped to symmetric positive-definite matrices whose excess over the floor is positive definite, and the unconstrained vector read back equals the one set. '
     'Conversely every symmetric positive-definite matrix above the floor survives the trip through its unconstrained vector, and each matrix of a vector or array depends on its own segment only.',
     [I, C], 'all unconstrained vectors, all PD matrices, all floors >= 0, matrix sizes, numbers of matrices',
     'tests use one random matrix and one floor; definiteness for every unconstrained vector is not testable.',
     ['MatrixParameters.py'], [('pack/unpack_posdef_matrix, exp/log_matrix_diagonal', 'MatrixParameters.py:83-134'),
                               ('set_free/get_free of the three types', 'MatrixParameters.py:137-481')],
     ['get() after set_free()', 'get_free() after set()'])
prop('C05', 'Simplex parameters hold probability rows, losslessly',
     'Every real unconstrained vector given to a simplex parameter yields rows of strictly positive numbers each summing to one, and reading the unconstrained vector back returns the one set; every matrix of positive rows summing to one survives the trip through its unconstrained vector. '
     'Each row depends on its own part of the unconstrained vector only, in row order.',
     [I, C], 'all unconstrained values, all simplex matrices, all shapes',
     'tests use one shape and one random matrix.',
     ['SimplexParams.py'], [('constrain/unconstrain_simplex_matrix', 'SimplexParams.py:11-31'), ('SimplexParam', 'SimplexParams.py:69-175')],
     ['get()', 'get_free()'])
prop('C06', 'Subspace-constrained vectors never leave their subspace',
     'A vector parameter restricted to the subspace perpendicular to the rows of a given matrix holds, after any unconstrained vector is set, a vector with zero inner product with every row of that matrix, and reading back gives the same unconstrained vector; any vector of the subspace survives the round trip.',
     [I, C], 'all unconstrained vectors, all orthonormal bases of the complement, dimensions',
     'tests use the default all-ones direction in one dimension count.',
     ['ProjectionParams.py'], [('SubspaceVectorParam', 'ProjectionParams.py:30-100'), ('get_perpendicular_subspace', 'ProjectionParams.py:13-27')],
     ['get()', 'get_free()'])
prop('C07', 'Unconstrained-to-flat Jacobians and Hessians are the true derivatives',
     'For every kind of parameter, the Jacobian and the per-component Hessians of the map from unconstrained vector to flat vector equal the exact first and second derivatives of that map, at every point, for every bound, floor, size and shape, with rows and columns in the order of the flat and unconstrained vectors. '
     'The result depends only on the point passed in, not on the value the parameter holds.',
     [I, C], 'all evaluation points, all bounds/floors, sizes, shapes, held values',
     'tests compare with automatic differentiation at one random point per type; the sparse index layout is checked at one size.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'ParameterDictionary.py'],
     [('free_to_vector_jac/hess of each type', 'Parameters.py:127-305,351-394; MatrixParameters.py:176-183,249-297,413-470; SimplexParams.py:101-155; ProjectionParams.py:80-88; ParameterDictionary.py:67-86')],
     ['free_to_vector_jac()', 'free_to_vector_hess()'])
prop('C08', 'A parameter dictionary is the exact concatenation of its parts',
     'The flat (and unconstrained) vector of a dictionary of parameters, nested or not, is the concatenation of those of its members in the order they were added; the index range recorded for a name is exactly where that member sits, and the sizes are the sums of the member sizes. '
     'Writing a vector changes each member by its own segment only, value access by name reads and writes only that member, and adding a member under a name already in use is refused with ValueError.',
     [I, C, H], 'all member types and orders, nestings and values',
     'tests use one dictionary with a fixed order and compare sizes only.',
     ['ParameterDictionary.py', 'Parameters.py'], [('ModelParamsDict', 'ParameterDictionary.py:19-112'), ('offset helpers', 'Parameters.py:326-348'), ('ModelParamsDictValues', 'ParameterDictionary.py:115-124')],
     ['get_vector()', 'get_free()', 'free_indices_dict', 'vector_indices_dict'])
prop('C09', 'A value of the wrong size or shape is refused and changes nothing',
     'For vector, array, positive-definite (single, vector, array), simplex, subspace and dictionary parameters, giving a flat or unconstrained vector of the wrong length, a vector value of the wrong size, or an array or matrix value of the wrong shape raises ValueError. '
     'After such a refusal the parameter still holds the value it held before.',
     [I, C, H], 'all wrong shapes around the declared one (one more, one fewer, transposed, wrong number of dimensions), all held values',
     'tests try a single wrong size per type and never look at the value afterwards.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'ParameterDictionary.py'],
     [('shape and size guards in set/set_free/set_vector', 'Parameters.py:178-315; MatrixParameters.py:160-411; SimplexParams.py:86-160; ProjectionParams.py:66-93; ParameterDictionary.py:55-97')],
     ['ValueError', 'get() afterwards'])
prop('C10', 'Hessian conversion from flat to unconstrained space obeys the chain rule',
     'Given the gradient and the Hessian of any function with respect to the flat vector, the converted Hessian equals the Hessian of the composed function with respect to the unconstrained vector, for dense and for sparse input Hessians, at every point and for every parameter.',
     [I, C], 'all gradients and symmetric Hessians (symbolic), all points, several parameter structures',
     'one random function at one point is compared today.',
     ['Parameters.py'], [('convert_vector_to_free_hessian', 'Parameters.py:397-436')], ['the returned matrix'])
prop('C11', 'Objective values and derivatives are exact in both parameterizations',
     'For any smooth function of a parameter, the gradient, Hessian, Jacobian and Hessian-vector product offered in unconstrained and in flat coordinates are the true derivatives of the function evaluated with the parameter set from those coordinates. '
     'Extra positional and keyword arguments reach the function unchanged in every evaluation.',
     [I, C], 'all evaluation points, all directions, all extra arguments, several parameter structures and functions with symbolic coefficients',
     'tests use one quadratic at a few points.',
     ['SparseObjectives.py'], [('Objective', 'SparseObjectives.py:95-199')], ['fun_free*, fun_vector*'])
prop('C12', 'The preconditioned objective is the same function in rescaled coordinates',
     'With a preconditioning matrix A, dense or sparse, the conditioned objective at x is the objective at A x, its gradient is A-transpose times the gradient there, its Hessian is A-transpose H A, and its Hessian-vector product is A-transpose H A v. '
     'Converting a conditioned point back gives A x, so value and point always refer to the same coordinates.',
     [I, C], 'all invertible A (also non-symmetric), points, directions',
     'tests use a single random symmetric preconditioner.',
     ['SparseObjectives.py'], [('conditioned functions', 'SparseObjectives.py:202-242')], ['fun_free*_cond', 'uncondition_x'])
prop('C13', 'Evaluating derivatives leaves plain numbers in the parameter',
     'After any derivative evaluation through an objective, a two-parameter objective, a parameter converter or a sensitivity object, the parameters hold ordinary numeric values (no automatic-differentiation tracer): those of the point that was evaluated (a sensitivity object: its base point; the output parameter of a converter: what it held before), so further reads and evaluations work.',
     [I, H], 'all sequences of derivative calls of length up to the bound, all points',
     'tests do not look at the parameter state after derivative calls.',
     ['SparseObjectives.py', 'ModelSensitivity.py'], [('cache_free_and_eval / cache_vector_and_eval / cache_and_eval', 'SparseObjectives.py:142-150,280-291,341-351; ModelSensitivity.py:412-415')],
     ['get() after derivative calls'])
prop('C14', 'Two-parameter objectives give the true gradients and mixed second derivatives',
     'For a function of two parameters, the gradient with respect to each and the mixed second-derivative matrices (first-second and second-first) in every combination of unconstrained and flat coordinates are the true partial derivatives, the second-first one being the transpose of the first-second one, and extra arguments are passed on unchanged.',
     [I, C], 'all points, extra arguments, coordinate combinations, asymmetric functions and different sizes',
     'tests use one function at one point.',
     ['SparseObjectives.py'], [('TwoParameterObjective', 'SparseObjectives.py:312-450')], ['fun_*'])
prop('C15', 'Parameter-converter Jacobians are the true derivatives of the conversion',
     'For a conversion that computes one parameter from another, the converted values and the Jacobians in all four combinations of unconstrained and flat coordinates of input and output are exact at every point.',
     [I, C], 'all points, several pairs of parameter types',
     'one converter at one point is tested.',
     ['SparseObjectives.py'], [('ParameterConverter', 'SparseObjectives.py:245-309')], ['converter_*', '*_jacobian'])
prop('C16', 'Linear sensitivity obeys the implicit function theorem',
     'At a stationary point of an objective that depends on a hyperparameter, the reported derivative of the optimum with respect to the hyperparameter equals minus the inverse Hessian times the mixed second derivative, in whichever coordinates (unconstrained or flat) were requested for each, also when a Hessian or a separate hyperparameter objective is supplied. '
     'The prediction at a new hyperparameter is the base optimum plus that derivative times the change, and it equals the base optimum at the base hyperparameter.',
     [I, C], 'all objectives of the family with symbolic coefficients, all base points, hyperparameters, coordinate flags',
     'tests use one model and mostly the default coordinate flags.',
     ['ModelSensitivity.py'], [('ParametricSensitivityLinearApproximation', 'ModelSensitivity.py:555-612')],
     ['get_dinput_dhyper', 'predict_input_par_from_hyperparameters'])
prop('C17', 'Taylor expansion of the optimum is correct at every order',
     'For every order up to the one requested, the reported derivative of the optimal input along a hyperparameter direction is the true derivative of the implicitly defined optimum, and the Taylor series value is the base optimum plus the sum of derivative over factorial (or the offset alone when asked). '
     'Merging like terms and re-evaluating at other directions never changes the result, and the supplied base Hessian and coordinate flags are honoured.',
     [I, C], 'all objectives of a family with symbolic coefficients, directions, orders up to the bound',
     'tests compare a low order on one model with finite tolerance.',
     ['ModelSensitivity.py'], [('DerivativeTerm.differentiate, consolidate_terms, differentiate_terms', 'ModelSensitivity.py:83-379'), ('ParametricSensitivityTaylorExpansion', 'ModelSensitivity.py:382-520'), ('append_jvp', 'ModelSensitivity.py:38-63')],
     ['evaluate_dkinput_dhyperk', 'evaluate_taylor_series'])
prop('C18', 'Input and output sensitivities and predictions are consistent and exact',
     'The older sensitivity object reports the derivative of the optimum with respect to the hyperparameters and of a derived output parameter as the product of the output Jacobian with it. '
     'Linear predictions are the base value plus derivative times change in unconstrained coordinates, the nonlinear output prediction equals converting the predicted input, and at the base hyperparameter all predictions return the base values.',
     [I, C], 'all objectives of a family with symbolic coefficients, outputs, hyperparameters',
     'one model, one perturbation is tested.',
     ['SparseObjectives.py'], [('ParametricSensitivity', 'SparseObjectives.py:487-577')], ['get_dinput_dhyper', 'get_doutput_dhyper', 'predict_*'])
prop('C19', 'Normal families report the true moments and entropies',
     'For every normal-family parameter (univariate, vector, array, moment-parameterized array, multivariate, array of multivariates) the reported mean, second moment, outer product, variance, covariance, log-normal mean, variance and second moment, and entropy are those of the distribution, elementwise, for all means and all positive informations. '
     'Copying from another normal parameter or from constants preserves mean and second moment.',
     [I, C], 'all means and positive informations, all shapes up to the bound',
     'tests sample a few values and compare some moments only.',
     ['NormalParams.py', 'ExponentialFamilies.py'], [('normal parameter classes', 'NormalParams.py:6-162'), ('normal entropies, lognormal moments', 'ExponentialFamilies.py:23-30,104-109')],
     ['e(), e_outer(), var(), cov(), e_exp(), var_exp(), e2_exp(), entropy()'])
prop('C20', 'Gamma, Wishart, Dirichlet, beta and multinoulli quantities are exact',
     'Means, expected logarithms, expected log determinants, expected inverses and entropies of gamma, Wishart, Dirichlet, beta and multinoulli distributions equal their textbook values for all legal parameters, both in the stand-alone functions and in the corresponding parameter classes, for every size and for stacked (array) parameters.',
     [I, C], 'all legal parameters, sizes up to the bound',
     'tests compare with scipy or Monte Carlo at one parameter value.',
     ['ExponentialFamilies.py', 'GammaParams.py', 'WishartParams.py', 'DirichletParams.py'],
     [('entropies and moments', 'ExponentialFamilies.py:5-121'), ('parameter classes', 'GammaParams.py; WishartParams.py; DirichletParams.py')],
     ['e(), e_log(), e_log_det(), e_inv(), entropy()'])
prop('C21', 'Expected log priors equal the expectation of the log density',
     'Each expected log prior (multivariate and univariate normal, gamma, exponential, Dirichlet, LKJ) equals, up to a constant that does not depend on the variational moments, the expectation of the log density under those moments, for all prior parameters and all moments. '
     'Natural parameters of a univariate normal convert to the mean and variance they define.',
     [I, C], 'all prior parameters and moments, dimensions up to the bound',
     'tests compare one or two parameter values.',
     ['ExponentialFamilies.py', 'WishartParams.py', 'Modeling.py'], [('priors', 'ExponentialFamilies.py:176-209'), ('univariate_normal_log_prob', 'Modeling.py:61-80')],
     ['mvn_prior, uvn_prior, gamma_prior, exponential_prior, dirichlet_prior, expected_ljk_prior'])
prop('C22', 'Quadrature expectations are the weighted sums they claim to be',
     'The Gauss-Hermite expectations of a function, of a logistic term and of logit-normal quantities under a normal with given mean and information (or standard deviation) equal the quadrature rule applied to the function at mean plus scaled nodes, elementwise over arrays, for any nodes and weights. '
     'The expected Dirichlet-process prior and the sampled logistic term are the corresponding sums, and the univariate normal log density is the logarithm of the normal density.',
     [I, C], 'all means, positive informations, responses, nodes and weights (symbolic), array shapes',
     'tests compare with numerical integration at sampled values within loose tolerances.',
     ['ExponentialFamilies.py', 'Modeling.py'], [('get_e_fun_normal and logit-normal expectations', 'ExponentialFamilies.py:126-173,213-221'), ('logistic terms', 'Modeling.py:16-53')],
     ['returned expectations'])
prop('C23', 'Regression natural parameters and posteriors are exact',
     'Batched matrix-matrix and matrix-vector products equal the product of the trailing dimensions for each batch index; the natural parameters of the likelihood and the prior are those of the linear-Gaussian model, and the means and covariances recovered from their sum are the weighted least-squares and the posterior solutions, separately for every group.',
     [I, C], 'all responses, regressors, informations and priors, numbers of groups, observations and regressors up to the bound',
     'tests use one random data set per function.',
     ['regression_utils.py'], [('whole module', 'regression_utils.py:8-133')], ['returned arrays'])
prop('C24', 'The inverse square root of a Hessian is exact and honours eigenvalue limits',
     'For any symmetric matrix, with eigenvalues raised to the lower limit and lowered to the upper limit when these are given, the returned inverse square root squares to the inverse of the matrix with the limited eigenvalues and the same eigenvectors, and the returned matrix is that limited matrix; it is symmetric. '
     'Installing it as the preconditioner of an objective uses the Hessian at the given point (or the supplied one), changes the preconditioner only, and returns the Hessian, the inverse square root and the limited Hessian.',
     [I, C], 'all orthonormal eigenbases (rotations) and eigenvalues, all limits, sizes up to the bound',
     'one random matrix and one pair of limits is tested.',
     ['OptimizationUtils.py', 'SparseObjectives.py'], [('get_sym_matrix_inv_sqrt', 'OptimizationUtils.py:6-22; SparseObjectives.py:662-679'), ('set_objective_preconditioner', 'OptimizationUtils.py:25-41')],
     ['returned matrices', 'objective.preconditioner'])
prop('C25', 'Optimizer wrappers minimize the right function and report the right point',
     'The trust-region and BFGS wrappers start from the given unconstrained point (rescaled when preconditioning), hand the optimizer the objective with its matching derivatives and the requested tolerances and limits, and return the optimum in unconstrained, unscaled coordinates together with the optimizer result, whatever optimum the optimizer reports. '
     'Requesting preconditioning without a preconditioner set is refused. With display on every evaluation the optimizer makes is logged (in unscaled coordinates), in a log that starts empty unless asked otherwise.',
     [I, C], 'all start points, preconditioners, points returned by the optimizer, options',
     'tests run one quadratic to convergence where wrong derivatives or coordinates can still converge.',
     ['OptimizationUtils.py'], [('minimize_objective_trust_ncg, minimize_objective_bfgs', 'OptimizationUtils.py:44-111')],
     ['arguments reaching the optimizer', 'returned point'])
prop('C26', 'Repeated optimization chains its runs and its flags are truthful',
     'Repeated optimization feeds each run the point of the previous one (the first the start, or the result of the initial optimization), stops as soon as the change of the objective or of the point is within tolerance or the gradient is small (sums of absolute values) or the maximum number of runs (at least one) is reached, and returns the last point with the last result, and all results in order when asked to keep them. '
     'The converged flags say exactly which criterion held at the last run.',
     [I, H], 'all sequences of optimizer results (points, values, gradients) up to the bounded number of runs, all tolerances',
     'tests see only immediate convergence.',
     ['OptimizationUtils.py'], [('repeatedly_optimize', 'OptimizationUtils.py:114-162')], ['returned tuple', 'number of runs'])
prop('C27', 'Conjugate-gradient helpers cover every index and solve the right system',
     'Splitting a boolean mask halves it into two disjoint masks whose union is the original; recursive splitting and the fixed-length masks cover every index exactly once, with no mask selecting more than the requested number. '
     'The solver hands the supplied Hessian-vector product (at its base point), right-hand side, start, tolerance and preconditioner to the iterative solver and returns its answer; the subset variant records, mask by mask, the masked vector (zero off the mask) and its solution.',
     [I, C], 'all vectors, Hessians, lengths and minimum lengths up to the bound',
     'tests do not cover this module.',
     ['ConjugateGradient.py'], [('split_vector, recursive_split, get_masks', 'ConjugateGradient.py:19-60'), ('ConjugateGradientSolver', 'ConjugateGradient.py:63-108')],
     ['masks', 'returned solutions'])
prop('C28', 'Sparse helpers place every entry correctly and round-trip losslessly',
     'Embedding a small matrix at given row and column indices, offsetting a matrix inside a larger one, and embedding a Hessian give exactly the matrix whose addressed entries are the given ones, all others zero; packing a sparse matrix (also to text) and unpacking reproduces it. '
     'An index parameter maps every name to the positions it occupies in the flat vector, and the mixed dense/sparse product equals the ordinary matrix product.',
     [I, C], 'all entries, index sets, shapes up to the bound',
     'tests embed one matrix.',
     ['SparseObjectives.py', 'Parameters.py'], [('get_sparse_sub_matrix, get_sparse_sub_hessian', 'SparseObjectives.py:591-621'), ('pack/unpack', 'SparseObjectives.py:624-659'), ('make_index_param', 'SparseObjectives.py:581-588'), ('safe_matmul, compress', 'SparseObjectives.py:21-33'), ('offset_sparse_matrix', 'Parameters.py:362-368')],
     ['returned matrices'])
prop('C29', 'The evaluation log records every evaluation in order',
     'After any sequence of logged evaluations the log holds every value and every point given (as it was when given), in order, with the latest value and point and the number of evaluations, and the print callback is called exactly on every k-th evaluation, starting with the first. An objective evaluated verbosely logs the value it returns together with the point it was given (in unscaled coordinates when preconditioned); a quiet evaluation logs nothing. '
     'Initializing starts an empty log.',
     [I, H], 'all sequences of values and points up to the bounded length, all print intervals',
     'the log is not inspected by tests.',
     ['SparseObjectives.py'], [('Logger', 'SparseObjectives.py:48-92'), ('logging in evaluation', 'SparseObjectives.py:120-125,207-210')],
     ['val_array, x_array, iter, value, x, last_value, last_x'])
prop('C30', 'Reading a parameter changes nothing, and copies are independent',
     'Reading values, unconstrained or flat vectors, dictionaries, names, sizes or derivative matrices of a parameter never changes the value it holds. '
     'A deep copy of a parameter or of a dictionary of parameters behaves the same and shares no state: changing one never changes the other, and evaluating derivatives of the copy does not touch the original.',
     [I, H], 'all values, all sequences of reads and writes up to the bound, all parameter types',
     'tests do not check for hidden mutation or sharing.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'ParameterDictionary.py', 'SparseObjectives.py'],
     [('state kept in the parameter objects', 'Parameters.py:82-322; MatrixParameters.py:137-481; SimplexParams.py:69-175; ParameterDictionary.py:19-112')],
     ['get() before and after'])
prop('C31', 'Evaluations modify neither their arguments nor earlier results',
     'No evaluation writes into the arrays it is given (points, vectors, extra arguments, gradients, Hessians, preconditioners, masks, right-hand sides, hyperparameters, values), '
     'and no array returned, recorded or logged earlier changes because of a later evaluation at another point: this holds for parameters and dictionaries, objectives and their derivatives, rescaled and two-parameter objectives, conversions, sensitivity and Taylor approximations, optimizer wrappers, conjugate-gradient helpers, the log and the stand-alone functions.',
     [I, H], 'all arguments up to the bounded sizes, all pairs of calls on one object',
     'tests look at the returned value only, once.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ProjectionParams.py', 'ParameterDictionary.py', 'SparseObjectives.py', 'ModelSensitivity.py', 'OptimizationUtils.py', 'ConjugateGradient.py', 'ExponentialFamilies.py', 'Modeling.py', 'regression_utils.py'],
     [('Objective and rescaled evaluations', 'SparseObjectives.py:97-243'), ('parameter setters and getters', 'Parameters.py:82-322; MatrixParameters.py:137-481'),
      ('get_sym_matrix_inv_sqrt, repeatedly_optimize', 'OptimizationUtils.py:52-162'), ('get_hinv_vec_subsets', 'ConjugateGradient.py:88-108')],
     ['arguments after the call', 'earlier results after later calls'])
prop('C32', 'Results depend on current arguments and data, not on earlier evaluations',
     'An evaluation gives exactly what the same call on a freshly built object gives, whatever was evaluated before, on the same object or another: at nearby or equal points, with other extra arguments, preconditioners or base values, with the very same array overwritten in between, after the parameter was moved by hand, or after the data the objective reads changed. '
     'This holds for parameters and dictionaries (what a parameter reports in flat and unconstrained form always agrees with the value it holds, also when the caller writes into arrays given or returned), objectives, two-parameter objectives, conversions, sensitivity and Taylor approximations (after new base values or another order), exponential-family summaries, stand-alone functions, preconditioners, optimizer wrappers and conjugate-gradient solves.',
     [H, C], 'all histories of one earlier call of each kind and of all of them together, at arbitrary points, up to the bounded sizes',
     'tests evaluate each object at one point, mostly once.',
     ['Parameters.py', 'MatrixParameters.py', 'SimplexParams.py', 'ParameterDictionary.py', 'SparseObjectives.py', 'ModelSensitivity.py', 'OptimizationUtils.py', 'ConjugateGradient.py', 'ExponentialFamilies.py', 'Modeling.py'],
     [('Objective.cache_and_eval and everything evaluated through it', 'SparseObjectives.py:97-243'), ('TwoParameterObjective', 'SparseObjectives.py:323-450'), ('ParameterConverter', 'SparseObjectives.py:247-311'),
      ('set_base_values, set_order', 'ModelSensitivity.py:382-660'), ('minimize_objective_*, set_objective_preconditioner', 'OptimizationUtils.py:7-110')],
     ['returned values compared with those of a fresh object'])

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(p, 'w') as f:
    for o in OUT:
        f.write(json.dumps(o) + '\n')
print(len(OUT))
