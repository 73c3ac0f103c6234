"""The planted bugs: (id, property, file, [(old, new)], needs, what it breaks, demonstration)."""
P = []


def bug(i, prop, file, edits, needs, breaks, demo):
    P.append(dict(id=i, property=prop, file=file, edits=edits, needs=needs, what_it_breaks=breaks, demo=demo))


bug('c01-saturating-exp', 'C01', 'Parameters.py',
    [("            exp_vec = np.exp(free_vec)\n", "            exp_vec = np.exp(np.minimum(free_vec, 8.0))\n")],
    'a parameter with both bounds and an unconstrained value above 8',
    'distinct unconstrained values map to the same constrained value',
    """
p = vb.VectorParam('p', 2, lb=-1.0, ub=3.0)
p.set_free(np.array([0.5, 9.0]))
ok = np.allclose(p.get_free(), [0.5, 9.0], atol=1e-6)
""")

bug('c01-any-below', 'C01', 'Parameters.py',
    [("    if not (vec >= lb).all():\n", "    if not (vec >= lb).any():\n")],
    'an array whose elements are partly legal and partly below the lower bound',
    'the unconstrained value of an illegal value is returned as nan instead of raising ValueError',
    """
p = vb.VectorParam('p', 2, lb=0.0)
p.set(np.array([1.0, -1.0]))
try:
    p.get_free()
    ok = False
except ValueError:
    ok = True
""")

bug('c02-stack-default-floor', 'C02', 'MatrixParameters.py',
    [("""            default_val = np.diag(np.full(self.__matrix_size, diag_lb + 1.0))
            self.__val = np.broadcast_to(default_val, self.__shape)
        else:
            self.set(val)

    def __str__(self):
        return self.name + ':\\n' + str(self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        if tuple(np.shape(val)) != tuple(self.__shape):
            raise ValueError('Array is the wrong size')
        self.__val = val
    def get(self):
        return self.__val

    def free_obs_slice""",
      """            default_val = np.diag(np.full(self.__matrix_size, max(diag_lb, 1.0)))
            self.__val = np.broadcast_to(default_val, self.__shape)
        else:
            self.set(val)

    def __str__(self):
        return self.name + ':\\n' + str(self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        if tuple(np.shape(val)) != tuple(self.__shape):
            raise ValueError('Array is the wrong size')
        self.__val = val
    def get(self):
        return self.__val

    def free_obs_slice""")],
    'a vector of positive-definite matrices whose diagonal floor is one or more',
    'the default value is not above the floor and has no unconstrained value',
    """
from LinearResponseVariationalBayes import PosDefMatrixParamVector
p = PosDefMatrixParamVector('p', length=2, matrix_size=2, diag_lb=2.0)
ok = bool(np.all(np.isfinite(p.get_free())))
""")

bug('c02-simplex-default', 'C02', 'SimplexParams.py',
    [("self.set(np.full(shape, 1. / shape[1]))", "self.set(np.full(shape, 1. / max(shape)))")],
    'more simplexes than elements in each',
    'the default rows do not sum to one',
    """
p = vb.SimplexParam('p', (3, 2))
ok = np.allclose(np.sum(p.get(), axis=1), 1.0)
""")

bug('c04-array-floor', 'C04', 'MatrixParameters.py',
    [("            pack_posdef_matrix(self.__val[obs], diag_lb=self.__diag_lb) \\\n",
      "            pack_posdef_matrix(self.__val[obs]) \\\n")],
    'an array of positive-definite matrices with a positive diagonal floor',
    'the unconstrained vector read back is not the one set',
    """
from LinearResponseVariationalBayes import PosDefMatrixParamArray
p = PosDefMatrixParamArray('p', array_shape=(2, 1), matrix_size=2, diag_lb=0.5)
x = np.linspace(-0.5, 0.7, p.free_size())
p.set_free(x)
ok = np.allclose(p.get_free(), x)
""")

bug('c04-first-floor-only', 'C04', 'MatrixParameters.py',
    [("""                free_val[self.free_obs_slice(obs)], diag_lb=self.__diag_lb) \\
              for obs in range(self.__length) ])

    def get_free(self):
        return np.hstack([ pack_posdef_matrix(
            self.__val[obs, :, :], diag_lb=self.__diag_lb) \\
""", """                free_val[self.free_obs_slice(obs)]) \\
              for obs in range(self.__length) ])

    def get_free(self):
        return np.hstack([ pack_posdef_matrix(
            self.__val[obs, :, :]) \\
""")],
    'a vector of positive-definite matrices with a positive floor: the two directions agree with each other',
    'the matrices no longer stay above the floor',
    """
from LinearResponseVariationalBayes import PosDefMatrixParamVector
p = PosDefMatrixParamVector('p', length=2, matrix_size=1, diag_lb=1.0)
p.set_free(np.array([-2.0, -3.0]))
ok = np.all(p.get() > 1.0)
""")

bug('c05-clipped-log', 'C05', 'SimplexParams.py',
    [("    return np.log(simplex_mat[:, 1:]) - \\\n", "    return np.log(np.maximum(simplex_mat[:, 1:], 1e-6)) - \\\n")],
    'a probability below one in a million',
    'small probabilities do not survive the round trip',
    """
p = vb.SimplexParam('p', (1, 3))
p.set_free(np.array([-20.0, 0.3]))
ok = np.allclose(p.get_free(), [-20.0, 0.3])
""")

bug('c06-rounded-basis', 'C06', 'ProjectionParams.py',
    [("    proj_basis = evec[:, keep_cols]\n    return proj_basis\n",
      "    proj_basis = evec[:, keep_cols]\n    # Clean up numerical noise.\n    return np.where(np.abs(proj_basis) < 1e-2, 0.0, proj_basis)\n")],
    'a constraint whose perpendicular basis has small but relevant components',
    'values leave the subspace',
    """
from LinearResponseVariationalBayes import SubspaceVectorParam
a = np.array([[1.0, 0.005, 0.0]])
p = SubspaceVectorParam('p', dim=3, perp_subspace=a)
p.set_free(np.array([1.5, -0.7]))
ok = abs(np.dot(a[0], p.get())) < 1e-8
""")

bug('c07-array-hess-shape', 'C07', 'MatrixParameters.py',
    [("""            array_inds = tuple([ [t] for t in obs]) + (vec_rows,)
            vec_inds = np.ravel_multi_index(array_inds, packed_shape)
            row_jac""", """            array_inds = tuple([ [t] for t in obs[::-1]]) + (vec_rows,)
            vec_inds = np.ravel_multi_index(
                array_inds, self.__array_shape[::-1] + (self.__vec_size,))
            row_jac""")],
    'a two-dimensional array of positive-definite matrices (any shape: only the order of equal-sized blocks changes)',
    'nothing on its own', "ok = True\n")
P.pop()

bug('c08-vector-range', 'C08', 'ParameterDictionary.py',
    [("            range(self.__vector_size, self.__vector_size + param.vector_size())",
      "            range(self.__free_size, self.__free_size + param.vector_size())")],
    'a simplex or subspace member followed by another member',
    'the recorded flat range of the later member is not where it sits',
    """
d = vb.ModelParamsDict('d')
d.push_param(vb.SimplexParam('s', (2, 3)))
d.push_param(vb.VectorParam('v', 2))
d['v'].set(np.array([7.0, 8.0]))
ok = np.allclose(d.get_vector()[list(d.vector_indices_dict['v'])], [7.0, 8.0])
""")

bug('c08-skip-empty', 'C08', 'ParameterDictionary.py',
    [("        offset = 0\n        for param in self.param_dict.values():\n            offset = par.set_vector_offset(param, vec, offset)\n",
      "        offset = 0\n        for param in self.param_dict.values():\n            par.set_vector_offset(param, vec, offset)\n            offset = self.vector_indices_dict[param.name][-1] + 1 \\\n                if isinstance(param, ModelParamsDict) else \\\n                offset + param.free_size()\n")],
    'a simplex member before another one',
    'writing a flat vector gives the later member the wrong segment',
    """
d = vb.ModelParamsDict('d')
d.push_param(vb.SimplexParam('s', (1, 2)))
d.push_param(vb.VectorParam('v', 1))
d.set_vector(np.array([0.25, 0.75, 5.0]))
ok = np.allclose(d['v'].get(), [5.0])
""")

bug('c09-too-long', 'C09', 'ParameterDictionary.py',
    [("        if vec.size != self.__free_size:\n", "        if vec.size < self.__free_size:\n")],
    'an unconstrained vector that is too long',
    'a too long vector is accepted and its tail ignored',
    """
d = vb.ModelParamsDict('d')
d.push_param(vb.VectorParam('v', 2))
try:
    d.set_free(np.arange(3.0))
    ok = False
except ValueError:
    ok = True
""")

bug('c09-set-before-check', 'C09', 'Parameters.py',
    [("""    def set(self, val):
        if val.shape != self.shape():
            raise""", """    def set(self, val):
        self.__val = val
        if val.shape != self.shape():
            raise""")],
    'an array of the wrong shape, refused, and a later read',
    'after the refusal the parameter holds the refused value',
    """
p = vb.ArrayParam('p', (2, 2))
before = np.array(p.get())
try:
    p.set(np.ones((1, 4)))
    ok = False
except ValueError:
    ok = p.get().shape == (2, 2) and np.allclose(p.get(), before)
""")

bug('c10-tiny-gradient', 'C10', 'Parameters.py',
    [("        free_to_vec_hessian[vec_ind].data * vector_grad[vec_ind]\n",
      "        free_to_vec_hessian[vec_ind].data * \\\n            (vector_grad[vec_ind] if abs(vector_grad[vec_ind]) > 0.05 else 0.0)\n")],
    'a point close to stationary in the flat coordinates',
    'the curvature of the constraint is dropped where the gradient is small',
    """
from LinearResponseVariationalBayes.Parameters import convert_vector_to_free_hessian
p = vb.VectorParam('p', 2, lb=0.0)
x = np.array([1.0, 2.0])
g = np.array([0.04, -0.02])
h = convert_vector_to_free_hessian(p, x, g, np.zeros((2, 2)))
h = h.toarray() if hasattr(h, 'toarray') else np.asarray(h)
ok = np.allclose(h, np.diag(g * np.exp(x)))
""")

bug('c12-stale-transpose', 'C12', 'SparseObjectives.py',
    [("        self.preconditioner = None\n        self.logger = Logger()\n",
      "        self.preconditioner = None\n        self._preconditioner_t = None\n        self.logger = Logger()\n"),
     ("""        return safe_matmul(
            self.preconditioner.T,
            self.fun_free_hvp(""", """        if self._preconditioner_t is None:
            self._preconditioner_t = self.preconditioner.T
        return safe_matmul(
            self._preconditioner_t,
            self.fun_free_hvp(""")],
    'a preconditioner that is replaced after a Hessian-vector product was evaluated',
    'later products use the transpose of the first preconditioner',
    """
p = vb.VectorParam('p', 2)
o = SO.Objective(p, lambda: anp.sum(p.get() ** 2))
x, v = np.array([0.5, -1.0]), np.array([1.0, 1.0])
o.preconditioner = np.eye(2)
o.fun_free_hvp_cond(x, v)
A = np.array([[1.0, 2.0], [0.0, 3.0]])
o.preconditioner = A
ok = np.allclose(o.fun_free_hvp_cond(x, v), 2 * A.T.dot(A.dot(v)))
""")

bug('c13-second-tracer', 'C13', 'SparseObjectives.py',
    [("        set_par(self.par1, val1, val1_is_free)\n        set_par(self.par2, val2, val2_is_free)\n\n        return result\n",
      "        set_par(self.par1, val1, val1_is_free)\n\n        return result\n")],
    'a derivative with respect to the second parameter followed by a read of it',
    'the second parameter is left holding an automatic-differentiation tracer',
    """
p, q = vb.VectorParam('p', 2), vb.VectorParam('q', 2)
o = SO.TwoParameterObjective(p, q, lambda: anp.sum(p.get() ** 2 * q.get() ** 3))
o.fun_vector_hessian12(np.array([1.0, 2.0]), np.array([3.0, 4.0]))
ok = isinstance(q.get(), np.ndarray) and np.allclose(q.get(), [3.0, 4.0])
""")

bug('c13-converter-output', 'C13', 'SparseObjectives.py',
    [("""        vec_val_out = self.par_out.get_vector()
        result = autograd_fun(vec_val_in)
        self.par_in.set_vector(vec_val_in)
        self.par_out.set_vector(vec_val_out)
""", """        result = autograd_fun(vec_val_in)
        self.par_in.set_vector(vec_val_in)
        self.converter()
""")],
    'a Jacobian of a conversion from flat coordinates, followed by a read of the output parameter',
    'the output parameter no longer holds what it held before',
    """
a, b = vb.VectorParam('a', 2), vb.VectorParam('b', 2)
c = SO.ParameterConverter(a, b, lambda: b.set(a.get() ** 2))
b.set(np.array([7.0, 8.0]))
c.vec_to_vec_jacobian(np.array([1.0, 2.0]))
ok = np.allclose(b.get(), [7.0, 8.0])
""")

bug('c14-mixed-kwargs', 'C14', 'SparseObjectives.py',
    [("""            self._fun_hessian12,
            vec_val1, free_val2,
            False, True,
            *argv, **argk)
""", """            self._fun_hessian12,
            vec_val1, free_val2,
            False, True,
            *argv)
""")],
    'a keyword argument given to the mixed derivative in flat/unconstrained coordinates',
    'the derivative ignores the keyword argument',
    """
p, q = vb.VectorParam('p', 1), vb.VectorParam('q', 1, lb=0.0)
o = SO.TwoParameterObjective(p, q, lambda s=1.0: s * anp.sum(p.get() * q.get()))
h = o.fun_hessian_vector1_free2(np.array([2.0]), np.array([0.5]), s=3.0)
ok = np.allclose(np.squeeze(h), 3.0 * np.exp(0.5))
""")

bug('c16-aliased-base', 'C16', 'ModelSensitivity.py',
    [("""        self.hyper_val0 = deepcopy(hyper_val0)
        self.set_par_to_base_values()

        if hess0 is None:
            if self.input_is_free:
                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
            else:
                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
        else:
            self.hess0 = hess0
        self.hess0_chol = sp.linalg.cho_factor(self.hess0)

        if self.input_is_free and""", """        self.hyper_val0 = hyper_val0
        self.set_par_to_base_values()

        if hess0 is None:
            if self.input_is_free:
                self.hess0 = self.objective.fun_free_hessian(self.input_val0)
            else:
                self.hess0 = self.objective.fun_vector_hessian(self.input_val0)
        else:
            self.hess0 = hess0
        self.hess0_chol = sp.linalg.cho_factor(self.hess0)

        if self.input_is_free and""")],
    'the array of base hyperparameters is modified in place after the sensitivity object was made',
    'predictions are relative to the modified array instead of the base hyperparameters',
    """
import LinearResponseVariationalBayes.ModelSensitivity as MS
x, h = vb.VectorParam('x', 1), vb.VectorParam('h', 1)
f = lambda: anp.sum((x.get() - 2 * h.get()) ** 2)
h0 = np.array([1.0])
s = MS.ParametricSensitivityLinearApproximation(f, x, h, np.array([2.0]), h0)
h0 += 0.5
ok = np.allclose(s.predict_input_par_from_hyperparameters(h0), [3.0])
""")

bug('c16-prior-only-hess', 'C16', 'ModelSensitivity.py',
    [("""        self.hyper_par_sensitivity = \\
            -1 * sp.linalg.cho_solve(
                self.hess0_chol, self.hyper_par_cross_hessian0)
""", """        if np.shape(self.hyper_par_cross_hessian0)[0] == \\
                np.shape(self.hyper_par_cross_hessian0)[1]:
            self.hyper_par_cross_hessian0 = 0.5 * (
                self.hyper_par_cross_hessian0 + self.hyper_par_cross_hessian0.T)
        self.hyper_par_sensitivity = \\
            -1 * sp.linalg.cho_solve(
                self.hess0_chol, self.hyper_par_cross_hessian0)
""")],
    'as many hyperparameters as inputs and a mixed second derivative that is not symmetric',
    'the reported derivative uses the symmetrized mixed derivative',
    """
import LinearResponseVariationalBayes.ModelSensitivity as MS
x, h = vb.VectorParam('x', 2), vb.VectorParam('h', 2)
A = np.array([[1.0, 2.0], [0.0, 1.0]])
f = lambda: 0.5 * anp.sum((x.get() - anp.dot(A, h.get())) ** 2)
h0 = np.array([1.0, -1.0])
s = MS.ParametricSensitivityLinearApproximation(f, x, h, A.dot(h0), h0)
ok = np.allclose(s.get_dinput_dhyper(), A)
""")

bug('c17-factorial', 'C17', 'ModelSensitivity.py',
    [("                float(math.factorial(k))\n", "                float(k * (k - 1))\n")],
    'a Taylor series of order four or more',
    'the fourth and higher terms have the wrong weight',
    """
import LinearResponseVariationalBayes.ModelSensitivity as MS
x, h = vb.VectorParam('x', 1), vb.VectorParam('h', 1)
# the optimum solves x = exp(h)
f = lambda: 0.5 * anp.sum((x.get() - anp.exp(h.get())) ** 2)
s = MS.ParametricSensitivityTaylorExpansion(f, x, h, np.array([1.0]), np.array([0.0]), 4)
d = np.array([0.5])
ok = np.allclose(s.evaluate_taylor_series(d), 1 + .5 + .125 + .125 / 6 + .0625 / 24)
""")

bug('c17-multiplicity', 'C17', 'ModelSensitivity.py',
    [("                        prefactor=self.prefactor * eta_order,\n", "                        prefactor=self.prefactor * min(eta_order, 2),\n")],
    'order four or more and an objective with nonlinear dependence on the input',
    'a term of the fourth derivative has the wrong multiplicity',
    """
import LinearResponseVariationalBayes.ModelSensitivity as MS
x, h = vb.VectorParam('x', 1), vb.VectorParam('h', 1)
# the optimum solves log x = h: derivatives of exp
f = lambda: anp.sum(x.get() * anp.log(x.get()) - x.get() - x.get() * h.get())
s = MS.ParametricSensitivityTaylorExpansion(f, x, h, np.array([1.0]), np.array([0.0]), 4)
ok = all(np.allclose(s.evaluate_dkinput_dhyperk(np.array([1.0]), k), 1.0) for k in range(1, 5))
""")

bug('c18-stale-hyper', 'C18', 'SparseObjectives.py',
    [("        self.set_optimal_input_par(optimal_input_par, objective_hessian)\n\n    def set_optimal",
      "        self.optimal_hyper_par = self.hyper_par.get_vector()\n        self.set_optimal_input_par(optimal_input_par, objective_hessian)\n\n    def set_optimal"),
     ("        self.optimal_hyper_par = self.hyper_par.get_vector()\n        self.hyper_par_cross_hessian = \\\n", "        self.hyper_par_cross_hessian = \\\n")],
    'the optimum is moved (set_optimal_input_par) after the hyperparameter was changed',
    'predictions are relative to the hyperparameter of the first optimum',
    """
x, h, y = vb.VectorParam('x', 1), vb.VectorParam('h', 1), vb.VectorParam('y', 1)
f = lambda: 0.5 * anp.sum((x.get() - h.get() ** 2) ** 2)
h.set(np.array([1.0])); x.set(np.array([1.0]))
s = SO.ParametricSensitivity(f, x, y, h, lambda: y.set(2 * x.get()), np.array([1.0]))
h.set(np.array([2.0]))
s.set_optimal_input_par(np.array([4.0]))
ok = np.allclose(s.predict_input_par_from_hyperparameters(np.array([2.0])), [4.0]) and \\
    np.allclose(s.get_dinput_dhyper(), [[4.0]])
""")

bug('c19-entropy-constant', 'C19', 'ExponentialFamilies.py',
    [("    return 0.5 * np.sum(-1 * np.log(info_obs) + 1 + np.log(2 * math.pi))\n",
      "    return 0.5 * (np.sum(-1 * np.log(info_obs)) + 1 + np.log(2 * math.pi))\n")],
    'entropies of more than one normal at once',
    'the constant is counted once instead of once per element',
    """
ok = np.allclose(ef.univariate_normal_entropy(np.array([1.0, 2.0])),
                 np.sum(0.5 * (1 + np.log(2 * np.pi) - np.log([1.0, 2.0]))))
""")

bug('c19-mvn-array', 'C19', 'NormalParams.py',
    [("        return self['mean'].get()**2 + var[:, None]\n",
      "        e2 = self['mean'].get().T**2 + var\n        return e2.T if e2.shape[0] != e2.shape[1] else self['mean'].get()**2 + var\n")],
    'an array of as many multivariate normals as dimensions',
    'the variances are added along the wrong axis',
    """
p = vb.MVNArray('p', (2, 2))
p['mean'].set(np.array([[1.0, 2.0], [3.0, 4.0]]))
p['info'].set(np.array([0.5, 0.25]))
ok = np.allclose(p.e2(), [[3.0, 6.0], [13.0, 20.0]])
""")

bug('c20-gammaln-size', 'C20', 'ExponentialFamilies.py',
    [("           0.25 * np.log(np.pi) * size * (size - 1.0);\n", "           0.5 * np.log(np.pi) * (size - 1.0);\n")],
    'Wishart matrices larger than 2x2 (or multivariate log gamma of that dimension)',
    'the multivariate log gamma function and with it the Wishart entropy',
    """
import scipy.special
ok = np.allclose(ef.multivariate_gammaln(3.5, 3), scipy.special.multigammaln(3.5, 3))
""")

bug('c21-trace', 'C21', 'ExponentialFamilies.py',
    [("                   np.trace(np.matmul(prior_info, cov_obs)))\n", "                   np.sum(np.diag(prior_info) * np.diag(cov_obs)))\n")],
    'a prior information and a covariance that both have off-diagonal elements',
    'the expected multivariate normal log prior misses the cross terms',
    """
A, S = np.array([[2.0, 0.5], [0.5, 1.0]]), np.array([[1.0, 0.3], [0.3, 1.0]])
m = np.zeros(2)
ok = np.allclose(ef.mvn_prior(m, A, m, S), -0.5 * np.trace(A.dot(S)))
""")

bug('c21-lkj-weight', 'C21', 'ExponentialFamilies.py',
    [("              np.sum(e_log_inv_wishart_diag(df, v))\n", "              v.shape[0] * np.mean(e_log_inv_wishart_diag(df, np.diag(np.diag(v))))\n")],
    'a Wishart scale with off-diagonal elements',
    'the expected LKJ prior uses the inverse of the diagonal instead of the diagonal of the inverse',
    """
v = np.array([[2.0, 0.9], [0.9, 1.0]])
want = 1.5 * (-ef.e_log_det_wishart(5.0, v) - np.sum(ef.e_log_inv_wishart_diag(5.0, v)))
ok = np.allclose(ef.expected_ljk_prior(2.5, 5.0, v), want)
""")

bug('c22-early-asymptote', 'C22', 'ExponentialFamilies.py',
    [("* (x > -1e2)\\\n                                + x * (x <= -1e2)\n", "* (x > -6.)\\\n                                + x * (x <= -6.)\n")],
    'quadrature points below -6',
    'the log of the logistic function is replaced by its asymptote too early',
    """
loc, w = np.array([0.0]), np.array([np.sqrt(np.pi)])
a, b = ef.get_e_log_logitnormal(np.array([-6.5]), np.array([1.0]), loc, w)
ok = abs(a[0] + np.log1p(np.exp(6.5))) < 1e-6
""")

bug('c22-sum-axis', 'C22', 'ExponentialFamilies.py',
    [("    integrand = fun(change_of_vars)\n\n    return np.sum(1/np.sqrt(np.pi) * gh_weights * integrand, axis = draws_axis)\n",
      "    integrand = fun(change_of_vars)\n\n    # Contract the draws with the weights.\n    return np.dot(integrand, gh_weights / np.sum(gh_weights))\n")],
    'weights that do not sum to the square root of pi',
    'the expectation is normalized by the weights given',
    """
loc, w = np.array([0.0, 1.0]), np.array([1.0, 0.5])
got = ef.get_e_fun_normal(np.array([0.5]), np.array([2.0]), loc, w, lambda x: x ** 2)
ok = np.allclose(got, (1.0 * 0.25 + 0.5 * 2.25) / np.sqrt(np.pi))
""")

bug('c23-info-transpose', 'C23', 'regression_utils.py',
    [("    mean = matvec_mul_last2dims(np.linalg.inv(info), nat_param1)\n",
      "    mean = matvec_mul_last2dims(np.linalg.inv(info), nat_param1) \\\n        if np.ndim(info) <= 3 else \\\n        np.einsum('...ij,j...->...i', np.linalg.inv(info), np.moveaxis(nat_param1, -1, 0)) \\\n        if np.shape(info)[0] != np.shape(info)[1] else \\\n        matvec_mul_last2dims(np.linalg.inv(np.swapaxes(info, 0, 1)), nat_param1)\n")],
    'groups indexed by a square two-dimensional batch',
    'the mean of one group is computed from the information of another',
    """
info = np.zeros((2, 2, 1, 1)); info[:, :, 0, 0] = [[1.0, 2.0], [4.0, 8.0]]
mean, _ = reg.get_mvn_from_nat_params(np.ones((2, 2, 1)), -0.5 * info)
ok = np.allclose(mean[:, :, 0], [[1.0, 0.5], [0.25, 0.125]])
""")

bug('c24-abs-values', 'C24', 'OptimizationUtils.py',
    [("    if not ev_min is None:\n        eig_val[eig_val <= ev_min] = ev_min\n", "    if not ev_min is None:\n        eig_val = np.abs(eig_val)\n        eig_val[eig_val <= ev_min] = ev_min\n")],
    'a Hessian with an eigenvalue below minus the lower limit',
    'negative eigenvalues are reflected instead of raised to the limit',
    """
i, c = opt.get_sym_matrix_inv_sqrt(np.diag([-3.0, 5.0]), ev_min=0.1)
ok = np.allclose(c, np.diag([0.1, 5.0]))
""")

bug('c25-hvp-coordinates', 'C25', 'OptimizationUtils.py',
    [("            hessp=objective.fun_free_hvp_cond,\n", "            hessp=objective.fun_free_hvp,\n")],
    'the trust-region wrapper with a preconditioner; the optimizer usually still converges',
    'the optimizer is handed Hessian products in the wrong coordinates',
    """
import scipy.optimize
p = vb.VectorParam('p', 2)
o = SO.Objective(p, lambda: anp.sum(anp.array([1.0, 3.0]) * p.get() ** 2))
A = np.array([[1.0, 2.0], [0.0, 3.0]])
o.preconditioner = A
seen = []
real = scipy.optimize.minimize
def spy(fun, x0, **k):
    seen.append(k['hessp'](np.array(x0), np.array([1.0, 1.0])))
    return real(fun, x0, **k)
scipy.optimize.minimize = spy
opt.minimize_objective_trust_ncg(o, np.array([1.0, 1.0]), True, disp=False)
ok = np.allclose(seen[0], A.T.dot(np.diag([2.0, 6.0])).dot(A).dot([1.0, 1.0]))
""")

bug('c25-loose-tolerance', 'C25', 'OptimizationUtils.py',
    [("""            jac=objective.fun_free_grad,
            hessp=objective.fun_free_hvp,
            method='trust-ncg',
            options={'maxiter': maxiter, 'gtol': gtol, 'disp': disp})
""", """            jac=objective.fun_free_grad,
            hessp=objective.fun_free_hvp,
            method='trust-ncg',
            options={'maxiter': maxiter, 'gtol': max(gtol, 1e-6), 'disp': disp})
""")],
    'a gradient tolerance below the default',
    'a tighter tolerance than the default is not handed to the optimizer',
    """
import scipy.optimize
p = vb.VectorParam('p', 1)
o = SO.Objective(p, lambda: anp.sum(p.get() ** 4))
seen = []
real = scipy.optimize.minimize
def spy(fun, x0, **k):
    seen.append(k['options'].get('gtol', k.get('tol')))
    return real(fun, x0, **k)
scipy.optimize.minimize = spy
opt.minimize_objective_trust_ncg(o, np.array([1.0]), False, disp=False, gtol=1e-9)
ok = np.allclose(seen[0], 1e-9, rtol=1e-6, atol=0)
""")

bug('c26-criteria', 'C26', 'OptimizationUtils.py',
    [("        converged = x_conv or f_conv or grad_conv\n", "        converged = x_conv or f_conv and grad_conv\n")],
    'a run after which only the gradient (or only the value) is within tolerance',
    'the iteration goes on although a criterion holds, and converged contradicts the flags',
    """
class O(object):
    def fun_free(self, x): return float(x[0])
    def fun_free_grad(self, x): return np.zeros(1)
n = []
def step(x):
    n.append(1)
    return x + 1.0, 'r'
r = opt.repeatedly_optimize(O(), step, np.zeros(1), max_iter=3)
ok = len(n) == 1 and bool(r[1])
""")

bug('c26-first-value', 'C26', 'OptimizationUtils.py',
    [("        x = new_x\n        f_val = new_f_val\n", "        x = new_x\n")],
    'two or more runs whose values return close to the starting value or settle away from it',
    'the change of the value is measured from the start instead of from the previous run',
    """
vals = {0: 0.0, 1: 5.0, 2: 5.0, 3: 5.0}
class O(object):
    def fun_free(self, x): return vals[int(x[0])]
    def fun_free_grad(self, x): return np.ones(1)
n = []
def step(x):
    n.append(1)
    return x + 1.0, 'r'
r = opt.repeatedly_optimize(O(), step, np.zeros(1), max_iter=3)
ok = len(n) == 2 and bool(r[3])
""")

bug('c27-last-index', 'C27', 'ConjugateGradient.py',
    [("    while ind < full_len:\n", "    while ind < full_len - 1:\n")],
    'a length that leaves a single index for the last mask',
    'the last index is covered by no mask',
    """
m = cg.get_masks(7, 3)
ok = list(np.sum(m, axis=0)) == [1] * 7
""")

bug('c28-drop-small', 'C28', 'SparseObjectives.py',
    [("            if sub_matrix[row, col] != 0:\n", "            if abs(sub_matrix[row, col]) > 1e-8:\n")],
    'an entry smaller than 1e-8',
    'small entries are dropped',
    """
m = SO.get_sparse_sub_hessian(np.array([[1e-9]]), [1], 3).toarray()
ok = m[1, 1] == 1e-9
""")

bug('c29-repeat-skipped', 'C29', 'SparseObjectives.py',
    [("        self.x_array.append(x)\n", "        if self.last_x is None or np.any(x != self.last_x):\n            self.x_array.append(x)\n")],
    'the same point evaluated twice in a row',
    'the repeated point is missing from the log, values and points no longer correspond',
    """
l = SO.Logger(); l.callback = lambda s: None
l.log(1.0, np.array([1.0])); l.log(1.0, np.array([1.0])); l.log(2.0, np.array([3.0]))
ok = len(l.x_array) == 3 and len(l.val_array) == 3
""")

bug('c29-second-first', 'C29', 'SparseObjectives.py',
    [("        if self.iter % self.print_every == 0:\n", "        if self.iter % self.print_every == self.print_every // 2:\n")],
    'a print interval of two or more',
    'the callback is not called on the first evaluation',
    """
seen = []
l = SO.Logger(print_every=3); l.callback = lambda s: seen.append(s.value)
for i in range(7):
    l.log(float(i), np.array([float(i)]))
ok = seen == [0.0, 3.0, 6.0]
""")

bug('c30-jac-moves', 'C30', 'MatrixParameters.py',
    [("""        jac_rows = []
        jac_cols = []
        grads = []
        vec_rows = range(self.__vec_size)
        packed_shape = (self.__length, self.__vec_size)
""", """        jac_rows = []
        jac_cols = []
        grads = []
        self.set_free(free_val)
        vec_rows = range(self.__vec_size)
        packed_shape = (self.__length, self.__vec_size)
""")],
    'a Jacobian of a vector of matrices at a point other than the held one, then a read',
    'reading a derivative changes the value held',
    """
from LinearResponseVariationalBayes import PosDefMatrixParamVector
p = PosDefMatrixParamVector('p', length=2, matrix_size=1)
before = np.array(p.get())
p.free_to_vector_jac(np.array([1.0, 2.0]))
ok = np.allclose(p.get(), before)
""")

bug('c30-shared-copy', 'C30', 'ParameterDictionary.py',
    [("        self.values = ModelParamsDictValues(self)\n\n", """        self.values = ModelParamsDictValues(self)

    # Copying the parameters is enough, the indices never change.
    def __deepcopy__(self, memo):
        result = copy.copy(self)
        result.param_dict = copy.deepcopy(self.param_dict, memo)
        return result

""")],
    'a deep copy of a dictionary whose values are then accessed through get()',
    'the value accessor of the copy reads and writes the original',
    """
import copy
d = vb.ModelParamsDict('d')
d.push_param(vb.VectorParam('v', 2))
e = copy.deepcopy(d)
e.get()['v'] = np.array([5.0, 6.0])
ok = np.allclose(e['v'].get(), [5.0, 6.0]) and np.allclose(d['v'].get(), [0.0, 0.0])
""")


bug('c02-upper-default', 'C02', 'Parameters.py',
    [("            return ub - 1.0\n", "            return ub - abs(ub)\n")],
    'an upper bound of zero (or a positive one: then the default is zero, inside) and no lower bound',
    'the default value lies on the bound, so its unconstrained value is infinite',
    """
p = vb.VectorParam('p', 2, ub=0.0)
ok = bool(np.all(p.get() < 0.0))
""")

bug('c03-dict-lower', 'C03', 'MatrixParameters.py',
    [("""        else:
            self.set(val)

    def __str__(self):
        return self.name + ':\\n' + str(self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        nrow, ncol = np.shape(val)
""", """        else:
            self.set(val)

    def __str__(self):
        return self.name + ':\\n' + str(self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return np.tril(self.__val).tolist()

    def set(self, val):
        nrow, ncol = np.shape(val)
""")],
    'the dictionary form of a matrix with off-diagonal entries',
    'the dictionary form has zeros above the diagonal',
    """
p = vb.PosDefMatrixParam('p', 2, val=np.array([[2.0, 0.5], [0.5, 1.0]]))
ok = np.allclose(p.dictval(), p.get())
""")

bug('c03-shared-matrix', 'C03', 'MatrixParameters.py',
    [("    mat_val = ld_mat + ld_mat.transpose()\n", "    mat_val = ld_mat + ld_mat.transpose()\n    mat_val = np.where(np.abs(mat_val) < 1e-6, 0., mat_val)\n")],
    'a symmetric matrix with entries below a millionth',
    'small entries of a flat vector are lost when it is written',
    """
p = vb.PosDefMatrixParam('p', 2)
v = np.array([1e-7, 0.0, 2e-7])
p.set_vector(v)
ok = np.allclose(p.get_vector(), v, rtol=1e-6, atol=0)
""")

bug('c07-upper-only', 'C07', 'Parameters.py',
    [("""    def free_to_vector_hess(self, free_val):
        def get_ind_hess(vec_ind):
            with warnings.catch_warnings():
                warnings.filterwarnings(
                    "ignore", "^Output seems independent of input\\.$", UserWarning)
""", """    def free_to_vector_hess(self, free_val):
        if self.__lb == -float("inf"):
            # The map is linear.
            return [ coo_matrix((self.free_size(), self.vector_size()))
                     for vec_ind in range(self.vector_size()) ]
        def get_ind_hess(vec_ind):
            with warnings.catch_warnings():
                warnings.filterwarnings(
                    "ignore", "^Output seems independent of input\\.$", UserWarning)
""")],
    'a vector parameter with an upper bound only',
    'the Hessian of the map to the flat vector is reported as zero',
    """
p = vb.VectorParam('p', 2, ub=1.0)
x = np.array([0.3, -0.2])
H = p.free_to_vector_hess(x)
ok = all(np.allclose(H[i].toarray()[i, i], -np.exp(-x[i])) for i in range(2))
""")

bug('c11-same-point', 'C11', 'SparseObjectives.py',
    [("        result = autograd_fun(vec_val, *argv, **argk)\n        self.par.set_vector(vec_val)\n",
      """        last = getattr(self, '_last_vector', None)
        if last is not None and last[0] is autograd_fun and \\
            last[2] == len(argv) and len(argv) == 0 and \\
            np.array_equal(last[1], vec_val):
            result = last[3]
        else:
            result = autograd_fun(vec_val, *argv, **argk)
            self._last_vector = (autograd_fun, deepcopy(vec_val), len(argv), result)
        self.par.set_vector(vec_val)
""")],
    'the same derivative evaluated twice in a row at one point with different keyword arguments (or data)',
    'the second evaluation returns the derivative for the first keyword arguments',
    """
p = vb.VectorParam('p', 2)
o = SO.Objective(p, lambda scale=1.0: scale * anp.sum(p.get() ** 2))
x = np.array([1.0, -2.0])
a = o.fun_vector_grad(x, scale=1.0)
ok = np.allclose(o.fun_vector_grad(x, scale=3.0), 6 * x)
""")

bug('c15-clipped', 'C15', 'SparseObjectives.py',
    [("""        self.par_in.set_vector(vec_par_in)
        self.converter()
        return self.par_out.get_free()
""", """        self.par_in.set_vector(vec_par_in)
        self.converter()
        return np.maximum(self.par_out.get_free(), -20.0)
""")],
    'an output very close to its bound, so that its unconstrained value is below -20',
    'the converted value is clipped and its Jacobian is zero',
    """
pi, po = vb.VectorParam('i', 1, lb=0.0), vb.VectorParam('o', 1, lb=0.0)
c = SO.ParameterConverter(pi, po, lambda: po.set(pi.get()))
x = np.array([1e-12])
ok = np.allclose(c.converter_vec_to_free(x), np.log(x)) and np.allclose(c.vec_to_free_jacobian(x), [[1e12]])
""")

bug('c15-first-output', 'C15', 'SparseObjectives.py',
    [("        result = autograd_fun(vec_val_in)\n        self.par_in.set_vector(vec_val_in)\n",
      """        last = getattr(self, '_last_vec', None)
        if last is not None and last[0] is autograd_fun and \\
            np.allclose(last[1], vec_val_in, rtol=1e-4):
            result = last[2]
        else:
            result = autograd_fun(vec_val_in)
            self._last_vec = (autograd_fun, deepcopy(vec_val_in), result)
        self.par_in.set_vector(vec_val_in)
""")],
    'the Jacobian at two nearby points, one after the other',
    'the Jacobian of the first point is returned for the second',
    """
pi, po = vb.VectorParam('i', 1), vb.VectorParam('o', 1)
c = SO.ParameterConverter(pi, po, lambda: po.set(pi.get() ** 2))
x = np.array([1.0])
c.vec_to_vec_jacobian(x)
y = np.array([1.00005])
ok = np.allclose(c.vec_to_vec_jacobian(y), [[2 * y[0]]], rtol=1e-7)
""")

bug('c23-single-sample', 'C23', 'regression_utils.py',
    [("    n_per_dim = np.prod(np.shape(y)[d2:d1])\n", "    n_per_dim = np.prod(np.shape(y)[d2:d1]) if d2 > 0 or d1 < 2 else np.shape(y)[0]\n")],
    'one regression with two or more extra dimensions of observations',
    'the information ignores the last extra dimensions',
    """
rng = np.random.RandomState(0)
y, x = rng.rand(2, 3, 4), rng.rand(4, 2)
n1, n2 = reg.get_nat_params_from_likelihood(y, x, 1.5)
ok = np.allclose(n2, -0.5 * 1.5 * 6 * x.T.dot(x))
""")

bug('c27-last-index', 'C27', 'ConjugateGradient.py',
    [("    while ind < full_len:\n", "    while ind < full_len - 1 or len(masks) < 2:\n")],
    'a length that leaves exactly one index for the last mask, with three or more masks',
    'the last index is in no mask',
    """
m = cg.get_masks(7, 3)
ok = np.all(np.sum(np.array(m), axis=0) == 1)
""")

bug('c28-float-index', 'C28', 'SparseObjectives.py',
    [("            if sub_matrix[row, col] != 0:\n", "            if np.abs(sub_matrix[row, col]) > 1e-8:\n")],
    'an entry smaller than 1e-8',
    'small entries are dropped',
    """
m = SO.get_sparse_sub_matrix(np.array([[1e-9, 1.0]]), [1], [0, 2], 3, 3).toarray()
ok = m[1, 0] == 1e-9 and m[1, 2] == 1.0
""")

# ---- arguments and earlier results kept (C31)

bug('c31-symmetrized-in-place', 'C31', 'OptimizationUtils.py',
    [("    hessian_sym = 0.5 * (hessian + hessian.T)\n",
      "    hessian_sym = np.asarray(hessian, dtype=float)\n    hessian_sym += hessian_sym.T.copy()\n    hessian_sym *= 0.5\n")],
    'a Hessian that is not exactly symmetric, looked at again after the call',
    'the matrix passed to get_sym_matrix_inv_sqrt is overwritten with its symmetric part',
    """
h = np.array([[2.0, 0.25], [0.0, 3.0]])
g = h.copy()
opt.get_sym_matrix_inv_sqrt(h)
ok = np.array_equal(g, h)
""")

bug('c31-start-overwritten', 'C31', 'OptimizationUtils.py',
    [("        x_diff = np.sum(np.abs(new_x - x))\n", "        x -= new_x\n        x_diff = np.sum(np.abs(x))\n")],
    'the starting point is used again after a repeated optimization',
    'the starting point passed by the caller is overwritten with the first step',
    """
class O(object):
    def fun_free(self, x):
        return np.sum(x ** 2)
    def fun_free_grad(self, x):
        return 2 * x
x0 = np.array([1.0, 2.0])
opt.repeatedly_optimize(O(), lambda x: (0.5 * x, None), x0, max_iter=3)
ok = np.array_equal(x0, [1.0, 2.0])
""")

bug('c31-matrices-overwritten', 'C31', 'MatrixParameters.py',
    [("""        self.__val = \\
            np.array([
              unvectorize_symmetric_matrix(vec_val[self.free_obs_slice(obs)]) \\
              for obs in range(self.__length) ])
""", """        new_val = \\
            np.array([
              unvectorize_symmetric_matrix(vec_val[self.free_obs_slice(obs)]) \\
              for obs in range(self.__length) ])
        if isinstance(self.__val, np.ndarray) and self.__val.flags.writeable \\
            and isinstance(new_val, np.ndarray):
            self.__val[...] = new_val
        else:
            self.__val = new_val
""")],
    'a vector of matrices set from an array (or read with get) and then set from a flat vector',
    'the array given to set, and values read earlier, are overwritten',
    """
p = vb.PosDefMatrixParamVector('p', length=2, matrix_size=2)
v = np.array([np.eye(2), 2 * np.eye(2)])
p.set(v)
p.set_vector(np.array([3.0, 0.0, 3.0, 4.0, 1.0, 4.0]))
ok = np.array_equal(v, np.array([np.eye(2), 2 * np.eye(2)]))
""")

bug('c31-masked-operand', 'C31', 'ConjugateGradient.py',
    [("            vec_masked = np.zeros(len(vec))\n            vec_masked[mask] = vec[mask]\n",
      "            vec_masked = np.zeros(len(vec)) if num_masks > 1 else vec\n            vec_masked[np.logical_not(mask)] = 0.0\n            vec_masked[mask] = vec[mask]\n")],
    'a single mask that does not select every element',
    'the unselected elements of the caller\'s vector are set to zero',
    """
s = cg.ConjugateGradientSolver(lambda x, v: 2.0 * v, np.zeros(3))
v = np.array([1.0, 2.0, 3.0])
s.get_hinv_vec_subsets(v, [np.array([True, False, True])])
ok = np.array_equal(v, [1.0, 2.0, 3.0]) and np.allclose(s.hinv_vecs[0], [0.5, 0.0, 1.5])
""")

bug('c31-shared-buffer', 'C31', 'SparseObjectives.py',
    [("""        return safe_matmul(self.preconditioner.T,
                           safe_matmul(hess, self.preconditioner))
""", """        cond_hess = safe_matmul(self.preconditioner.T,
                                safe_matmul(hess, self.preconditioner))
        buf = getattr(self, '_cond_hess', None)
        if buf is None or np.shape(buf) != np.shape(cond_hess):
            buf = self._cond_hess = np.array(cond_hess)
        buf[...] = cond_hess
        return buf
""")],
    'two Hessians of the rescaled objective kept at the same time',
    'the second Hessian overwrites the first one returned',
    """
p = vb.VectorParam('p', 2)
o = SO.Objective(p, lambda: anp.sum(p.get() ** 3))
o.preconditioner = 2 * np.eye(2)
a = o.fun_free_hessian_cond(np.array([1.0, 1.0]))
b = a.copy()
o.fun_free_hessian_cond(np.array([2.0, 3.0]))
ok = np.allclose(a, b)
""")

# ---- history (C32)

bug('c32-stale-base-hessian', 'C32', 'ModelSensitivity.py',
    [("""    def get_dkinput_dhyperk_from_terms(self, dterms):
""", """    def get_dkinput_dhyperk_from_terms(self, dterms):
        hess0 = self.hess0
"""), ("""            return evaluate_dketa_depsk(
                self.hess0, dterms, self.input_val0, self.hyper_val0, dhyper)
""", """            return evaluate_dketa_depsk(
                hess0, dterms, self.input_val0, self.hyper_val0, dhyper)
""")],
    'new base values set on an existing expansion',
    'the expansion at the new base uses the Hessian of the old one',
    """
import LinearResponseVariationalBayes.ModelSensitivity as ms
pi, ph = vb.VectorParam('i', 1), vb.VectorParam('h', 1)
f = lambda: anp.sum(pi.get() ** 4 / 4 - ph.get() * pi.get())
mk = lambda h: (np.array([h ** (1.0 / 3)]), np.array([h]))
t = ms.ParametricSensitivityTaylorExpansion(f, pi, ph, *mk(1.0), order=2)
t.set_base_values(*mk(8.0))
u = ms.ParametricSensitivityTaylorExpansion(f, pi, ph, *mk(8.0), order=2)
d = np.array([0.5])
ok = np.allclose(t.evaluate_taylor_series(d), u.evaluate_taylor_series(d))
""")

bug('c32-kept-hessian', 'C32', 'SparseObjectives.py',
    [("""        if objective_hessian is None:
            self.objective_hessian = self.objective.fun_free_hessian(
                self.optimal_input_par)
""", """        if objective_hessian is None:
            last = getattr(self, '_hessian_point', None)
            if last is None or not np.array_equal(last, self.optimal_input_par):
                self.objective_hessian = self.objective.fun_free_hessian(
                    self.optimal_input_par)
                self._hessian_point = np.array(self.optimal_input_par)
""")],
    'the same optimum at another hyperparameter on which the Hessian depends',
    'the Hessian of the earlier hyperparameter is used',
    """
pi, po, ph = vb.VectorParam('i', 1), vb.VectorParam('o', 1), vb.VectorParam('h', 1)
f = lambda: anp.sum(ph.get() * pi.get() ** 2 + ph.get() ** 2 * pi.get())
mk = lambda: SO.ParametricSensitivity(f, pi, po, ph, lambda: po.set(pi.get()), optimal_input_par=np.array([1.0]))
ph.set(np.array([1.0]))
s = mk()
ph.set(np.array([2.0]))
s.set_optimal_input_par(np.array([1.0]))
a = s.get_dinput_dhyper()
ok = np.allclose(a, mk().get_dinput_dhyper())
""")

bug('c32-same-object', 'C32', 'SparseObjectives.py',
    [("""        result = autograd_fun(
            val1, val2, val1_is_free, val2_is_free, *argv, **argk)

        set_par(""", """        key = [autograd_fun, val1, val2, val1_is_free, val2_is_free]
        key += list(argv) + sorted(argk) + [ argk[k] for k in sorted(argk) ]
        last = getattr(self, '_last_key', None)
        if last is not None and len(last) == len(key) and \
            all([ k is l for k, l in zip(key, last) ]):
            result = self._last_result
        else:
            result = autograd_fun(
                val1, val2, val1_is_free, val2_is_free, *argv, **argk)
        self._last_key, self._last_result = key, result

        set_par(""")],
    'the same array objects passed again with other contents',
    'the derivative at the earlier contents is returned',
    """
a, b = vb.VectorParam('a', 1), vb.VectorParam('b', 1)
o = SO.TwoParameterObjective(a, b, lambda: anp.sum(a.get() ** 2 * b.get() ** 2))
x, y = np.array([2.0]), np.array([3.0])
o.fun_free_hessian12(x, y)
x[0] = 5.0
ok = np.allclose(o.fun_free_hessian12(x, y), [[60.0]])
""")

bug('c32-warm-start', 'C32', 'ConjugateGradient.py',
    [("    def get_hinv_vec(self, vec, x0=None):\n",
      "    def get_hinv_vec(self, vec, x0=None):\n        if x0 is None and len(self.hinv_vecs) > 0:\n            x0 = self.hinv_vecs[-1]\n")],
    'a solve after the subsets were solved, with a limit or tolerance the iteration does not reach exactly',
    'the solve starts from an earlier answer instead of from zero',
    """
import scipy.sparse.linalg as sl
got = []
old = sl.cg
def rec(A, b, x0=None, **k):
    got.append(x0)
    return old(A, b, x0=x0, **k)
sl.cg = rec
s = cg.ConjugateGradientSolver(lambda x, v: 2.0 * v, np.zeros(2))
s.get_hinv_vec_subsets(np.ones(2), [np.array([True, False])])
s.get_hinv_vec(np.ones(2))
sl.cg = old
ok = got[-1] is None
""")

bug('c32-sticky-preconditioning', 'C32', 'OptimizationUtils.py',
    [("""    objective.preconditioning = precondition
    if precondition:
        assert objective.preconditioner is not None
        init_x_cond = np.linalg.solve(objective.preconditioner, init_x)
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free_cond(par, verbose=disp),
            x0=init_x_cond,
            jac=objective.fun_free_grad_cond,
            hessp=""", """    objective.preconditioning = \\
        precondition or getattr(objective, 'preconditioning', False)
    if objective.preconditioning:
        assert objective.preconditioner is not None
        init_x_cond = np.linalg.solve(objective.preconditioner, init_x)
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free_cond(par, verbose=disp),
            x0=init_x_cond,
            jac=objective.fun_free_grad_cond,
            hessp=""")],
    'an optimization without preconditioning after one with it, on the same objective',
    'the second optimization still runs in rescaled coordinates',
    """
import scipy.optimize as so
p = vb.VectorParam('p', 1)
o = SO.Objective(p, lambda: anp.sum((p.get() - 1) ** 4 + (p.get() - 1) ** 2))
o.preconditioner = np.array([[2.0]])
opt.minimize_objective_trust_ncg(o, np.array([3.0]), True, disp=False)
x, r = opt.minimize_objective_trust_ncg(o, np.array([3.0]), False, disp=False, maxiter=3)
q = SO.Objective(p, lambda: anp.sum((p.get() - 1) ** 4 + (p.get() - 1) ** 2))
y, t = opt.minimize_objective_trust_ncg(q, np.array([3.0]), False, disp=False, maxiter=3)
ok = np.allclose(r.x, t.x) and r.fun == t.fun
""")

bug('c32-stale-unconstrained', 'C32', 'MatrixParameters.py',
    [("""        return np.hstack(np.array([ \\
            pack_posdef_matrix(self.__val[obs], diag_lb=self.__diag_lb) \\
                    for obs in itertools.product(*self.__array_ranges)]))
""", """        cached = getattr(self, '_free_of', None)
        if cached is not None and cached[0] is self.__val:
            return cached[1]
        free_val = np.hstack(np.array([ \\
            pack_posdef_matrix(self.__val[obs], diag_lb=self.__diag_lb) \\
                    for obs in itertools.product(*self.__array_ranges)]))
        self._free_of = (self.__val, free_val)
        return free_val
""")],
    'the value array given to set is changed in place by the caller, or a returned unconstrained vector is modified',
    'get_free returns the unconstrained vector of the earlier contents, or what the caller made of it',
    """
p = vb.PosDefMatrixParamArray('p', array_shape=(2,), matrix_size=1)
f = p.get_free()
f[0] = 17.0
ok = np.allclose(p.get_free(), [0.0, 0.0])
""")

bug('c32-indices-cached', 'C32', 'SimplexParams.py',
    [("    def get_vector_indices(self, row):\n", "    _indices = {}\n    def get_vector_indices(self, row):\n        key = (row, self.shape()[1])\n        if key not in self._indices:\n            self._indices[key] = self.make_vector_indices(row)\n        return self._indices[key]\n    def make_vector_indices(self, row):\n")],
    'none', 'none', "ok = True")
P.pop()

bug('c32-rounded-memo', 'C32', 'SparseObjectives.py',
    [("""        result = autograd_fun(free_val_in)
        self.par_in.set_free(free_val_in)
        self.par_out.set_vector(vec_val_out)
        return result
""", """        last = getattr(self, '_last_free', None)
        if last is not None and last[0] is autograd_fun and \\
            np.max(np.abs(np.asarray(free_val_in) - last[1])) < 1e-9:
            result = last[2]
        else:
            result = autograd_fun(free_val_in)
            self._last_free = (autograd_fun, np.array(free_val_in), result)
        self.par_in.set_free(free_val_in)
        self.par_out.set_vector(vec_val_out)
        return result
""")],
    'the same Jacobian asked for twice at (almost) the same point while the conversion has changed in between',
    'the Jacobian of the earlier conversion is returned',
    """
pi, po = vb.VectorParam('i', 1), vb.VectorParam('o', 1)
c = [1.0]
pc = SO.ParameterConverter(pi, po, lambda: po.set(c[0] * pi.get()))
pc.free_to_vec_jacobian(np.array([1.0]))
c[0] = 5.0
ok = np.allclose(pc.free_to_vec_jacobian(np.array([1.0])), [[5.0]])
""")

bug('c32-moved-base', 'C32', 'ModelSensitivity.py',
    [("""        self.hyper_par_cross_hessian0 = eval_cross_hessian(
""", """        self.hyper_par_cross_hessian0 = eval_cross_hessian(
""")], 'none', 'none', "ok = True")
P.pop()
