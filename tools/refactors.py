"""Behaviour-preserving edits on which every check has to stay quiet.

R[bundle] = list of (file, old, new).  Each bundle is applied as a whole to a scratch copy."""
R = {}


def ed(bundle, file, old, new):
    R.setdefault(bundle, []).append((file, old, new))


# ---------------------------------------------------------------- Parameters
F = 'Parameters.py'
ed('A', F, """    if not (vec <= ub).all():
        raise ValueError('Elements larger than the upper bound')
    if not (vec >= lb).all():
        raise ValueError('Elements smaller than the lower bound')
    return unconstrain(vec, lb, ub).flatten()
""", """    if (vec > ub).any():
        raise ValueError('Elements larger than the upper bound')
    if np.any(vec < lb):
        raise ValueError('Elements smaller than the lower bound')
    return np.ravel(unconstrain(vec, lb, ub))
""")
ed('A', F, """            exp_vec = np.exp(free_vec)
            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
""", """            return lb + (ub - lb) / (1 + np.exp(-free_vec))
""")
ed('A', F, """            return -1 * np.log(ub - vec)
        else:
            return np.log(vec - lb) - np.log(ub - vec)
""", """            return -np.log(ub - vec)
        else:
            return np.log((vec - lb) / (ub - vec))
""")
ed('A', F, """            return ub - np.exp(-1 * free_vec)
""", """            return ub - np.exp(-free_vec)
""")
ed('A', F, """        return 0.5 * (ub + lb)
    else:
        if lb > -float('inf'):
            # The upper bound is infinite.
            return lb + 1.0
        elif ub < float('inf'):
            # The lower bound is infinite.
            return ub - 1.0
        else:
            # Both are infinie.
            return 0.0
""", """        return lb + (ub - lb) / 2.0
    if lb > -float('inf'):
        return 1.0 + lb
    if ub < float('inf'):
        return ub - 1.0
    return 0.0
""")
ed('A', F, """            constrain_scalar_jac(free_val, self.__lb, self.__ub))
    def free_to_vector_hess(self, free_val):
        with warnings.catch_warnings():
            warnings.filterwarnings(
                "ignore", "^Output seems independent of input\\.$", UserWarning)
            hess_dense = constrain_scalar_hess(
                free_val, self.__lb, self.__ub)
        return [ coo_matrix(hess_dense[ind, :, :])
                 for ind in range(hess_dense.shape[0]) ]
""", """            constrain_scalar_jac(free_val, lb=self.__lb, ub=self.__ub))
    def free_to_vector_hess(self, free_val):
        with warnings.catch_warnings():
            warnings.filterwarnings(
                "ignore", "^Output seems independent of input\\.$", UserWarning)
            hess_dense = constrain_scalar_hess(
                free_val, self.__lb, self.__ub)
        return [ coo_matrix(sub) for sub in hess_dense ]
""")
ed('A', F, """        rows_indices = np.array(range(self.vector_size()))
        grads = [ constrain_scalar_jac(free_val[vec_ind], self.__lb, self.__ub) \\
                  for vec_ind in range(self.vector_size()) ]
        return coo_matrix((grads,
                          (rows_indices, rows_indices)),
                          (self.vector_size(), self.free_size()))
""", """        size = self.vector_size()
        grads = np.zeros(size)
        for ind, free in enumerate(free_val):
            grads[ind] = constrain_scalar_jac(free, self.__lb, self.__ub)
        inds = np.arange(size)
        return coo_matrix((grads, (inds, inds)), shape=(size, size))
""")
ed('A', F, """    vec[offset:(offset + param.free_size())] = param.get_free()
    return offset + param.free_size()
""", """    end = offset + param.free_size()
    vec[offset:end] = param.get_free()
    return end
""")
ed('A', F, """    param.set_free(free_vec[offset:(offset + param.free_size())])
    return offset + param.free_size()
""", """    end = offset + param.free_size()
    param.set_free(free_vec[slice(offset, end)])
    return end
""")
ed('A', F, """    for vec_ind in range(len(hess)):
        hess_ind = hess[vec_ind]
        hessians.append(offset_sparse_matrix(
            hess_ind, (free_offset, free_offset), full_shape))
    return free_offset + param.free_size()
""", """    hessians.extend([
        offset_sparse_matrix(h, (free_offset, free_offset), full_shape)
        for h in hess ])
    return free_offset + param.free_size()
""")
ed('A', F, """    free_hess_vals = np.hstack([
        free_to_vec_hessian[vec_ind].data * vector_grad[vec_ind]
        for vec_ind in vec_range ])
    free_hess_rows = np.hstack([
        free_to_vec_hessian[vec_ind].row for vec_ind in vec_range ])
    free_hess_cols = np.hstack([
        free_to_vec_hessian[vec_ind].col for vec_ind in vec_range ])
    free_hess = coo_matrix(
        (free_hess_vals, (free_hess_rows, free_hess_cols)), free_hess_size)

    # Then add the second-order terms, which may be dense depending on the
    # vec_hess_target.
    free_hess += \\
        free_to_vec_jacobian.T * vector_hess * free_to_vec_jacobian

    return free_hess
""", """    free_hess = csr_matrix(free_hess_size)
    for vec_ind in vec_range:
        free_hess = free_hess + \\
            csr_matrix(free_to_vec_hessian[vec_ind]) * vector_grad[vec_ind]

    return free_hess + \\
        free_to_vec_jacobian.T * (vector_hess * free_to_vec_jacobian)
""")
ed('A', F, """        return int(np.product(self.__shape))
    def vector_size(self):
        return int(np.product(self.__shape))
""", """        return int(np.prod(self.__shape))
    def vector_size(self):
        return self.free_size()
""")
# variants B
ed('B', F, """    if not (vec <= ub).all():
        raise ValueError('Elements larger than the upper bound')
    if not (vec >= lb).all():
        raise ValueError('Elements smaller than the lower bound')
    return unconstrain(vec, lb, ub).flatten()
""", """    for elt in vec.flatten():
        if not elt <= ub:
            raise ValueError('Elements larger than the upper bound')
    if not np.all(vec >= lb):
        raise ValueError('Elements smaller than the lower bound')
    return unconstrain(vec, lb, ub).reshape(-1)
""")
ed('B', F, """    if ub <= lb:
        raise ValueError('Upper bound must be greater than lower bound')
    if ub == float("inf"):
        if lb == -float("inf"):
            # TODO: I'm not sure this copy work with autodiff.
            return copy.copy(free_vec)
        else:
            return np.exp(free_vec) + lb
    else: # the upper bound is finite
        if lb == -float("inf"):
            return ub - np.exp(-1 * free_vec)
        else:
            exp_vec = np.exp(free_vec)
            return (ub - lb) * exp_vec / (1 + exp_vec) + lb
""", """    if ub <= lb:
        raise ValueError('Upper bound must be greater than lower bound')
    no_lower = math.isinf(lb)
    no_upper = np.isinf(ub)
    if no_lower and no_upper:
        return free_vec + 0.0
    if no_upper:
        return lb + np.exp(free_vec)
    if no_lower:
        return ub - 1.0 / np.exp(free_vec)
    return lb + 0.5 * (ub - lb) * (1.0 + np.tanh(0.5 * free_vec))
""")
ed('B', F, """        return [ get_ind_hess(vec_ind)
                 for vec_ind in range(self.vector_size()) ]


    def set_vector(self, val):
        self.set(val)
    def get_vector(self):
        return self.__val

    def size(self):
        return self.__size
""", """        return list(map(get_ind_hess, range(self.vector_size())))


    def set_vector(self, val):
        self.set(val)
    def get_vector(self):
        return self.get()

    def size(self):
        return self.__size
""")
ed('B', F, """        self.set(constrain(free_val, self.__lb, self.__ub).reshape(self.__shape))
""", """        free_array = np.reshape(free_val, self.__shape)
        self.set(constrain(free_array, self.__lb, self.__ub))
""")
ed('B', F, """        (spmat.data,
         (spmat.row + offset_shape[0], spmat.col + offset_shape[1])),
         shape=full_shape)
""", """        (np.array(spmat.data),
         (offset_shape[0] + spmat.row, offset_shape[1] + spmat.col)),
         full_shape)
""")
ed('B', F, """    free_hess += \\
        free_to_vec_jacobian.T * vector_hess * free_to_vec_jacobian

    return free_hess
""", """    return free_to_vec_jacobian.T @ vector_hess @ free_to_vec_jacobian + \\
        free_hess
""")
ed('B', F, """        if val.shape != self.shape():
            raise ValueError('Wrong size for array ' + self.name + \\
""", """        if np.shape(val) != tuple(self.shape()):
            raise ValueError('Wrong size for array ' + self.name + \\
""")
# C
ed('C', F, """constrain_scalar_jac = autograd.jacobian(constrain)
constrain_scalar_hess = autograd.hessian(constrain)
""", """constrain_scalar_jac = autograd.jacobian(constrain, argnum=0)
constrain_scalar_hess = autograd.jacobian(autograd.jacobian(constrain))
""")
ed('C', F, """    if not val <= ub:
        raise ValueError('Value larger than the upper bound')
    if not val >= lb:
        raise ValueError('Value smaller than the lower bound')
    return unconstrain(val, lb, ub)
""", """    if lb <= val <= ub:
        return unconstrain(val, lb, ub)
    raise ValueError('Value out of bounds')
""")
ed('C', F, """            return coo_matrix(([ hess ],
                               ([vec_ind], [vec_ind])),
                               (self.free_size(), self.vector_size()))
        return \\
            [ get_ind_hess(vec_ind) for vec_ind in range(self.vector_size()) ]
""", """            dense = np.zeros((self.free_size(), self.vector_size()))
            dense[vec_ind, vec_ind] = hess
            return coo_matrix(dense)
        return \\
            [ get_ind_hess(vec_ind) for vec_ind in range(self.vector_size()) ]
""")
ed('C', F, """    free_hess_vals = np.hstack([
        free_to_vec_hessian[vec_ind].data * vector_grad[vec_ind]
        for vec_ind in vec_range ])
    free_hess_rows = np.hstack([
        free_to_vec_hessian[vec_ind].row for vec_ind in vec_range ])
    free_hess_cols = np.hstack([
        free_to_vec_hessian[vec_ind].col for vec_ind in vec_range ])
""", """    free_hess_vals = np.concatenate([
        h.data * g for h, g in zip(free_to_vec_hessian, vector_grad) ])
    free_hess_rows = np.concatenate([ h.row for h in free_to_vec_hessian ])
    free_hess_cols = np.concatenate([ h.col for h in free_to_vec_hessian ])
""")

# ---------------------------------------------------------------- MatrixParameters
F = 'MatrixParameters.py'
ed('A', F, """    mat = np.zeros((mat_size, mat_size))
    for k1 in range(mat_size):
        for k2 in range(k1 + 1):
            mat[k1, k2] = vec[SymIndex(k1, k2)]
    return mat
""", """    mat = np.zeros((mat_size, mat_size))
    mat[np.tril_indices(mat_size)] = vec
    return mat
""")
ed('A', F, """    mat_exp_diag = np.make_diagonal(
        np.exp(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
    return mat_exp_diag + mat - mat_diag
""", """    diag = np.diag(mat)
    return mat + np.make_diagonal(
        np.exp(diag) - diag, offset=0, axis1=-1, axis2=-2)
""")
ed('A', F, """    mat_log_diag = np.make_diagonal(
        np.log(np.diag(mat)), offset=0, axis1=-1, axis2=-2)
    mat_diag = np.make_diagonal(np.diag(mat), offset=0, axis1=-1, axis2=-2)
    return mat_log_diag + mat - mat_diag
""", """    return np.tril(mat, -1) + np.diag(np.log(np.diag(mat)))
""")
ed('A', F, """    mat_lb = mat - np.make_diagonal(
        np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)
""", """    mat_lb = mat - diag_lb * np.eye(k)
""")
ed('A', F, """    mat = np.matmul(mat_chol, mat_chol.T)
    k = mat.shape[0]
    return mat + np.make_diagonal(np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)
""", """    mat = mat_chol @ np.transpose(mat_chol)
    return mat + diag_lb * np.identity(mat.shape[0])
""")
ed('A', F, """    mat_val = mat_val - \\
        np.make_diagonal(np.diagonal(ld_mat, axis1=-1, axis2=-2),
                         axis1=-1, axis2=-2)
    return mat_val
""", """    return mat_val - ld_mat * np.eye(ld_mat.shape[0])
""")
ed('A', F, """        if not (val.transpose() == val).all():
            raise ValueError('Matrix is not symmetric')
        self.__val = val
""", """        if np.any(val != val.T):
            raise ValueError('Matrix is not symmetric')
        self.__val = val
""")
ed('A', F, """            row_jac = pos_def_matrix_free_to_vector_jac(free_val[vec_inds])
            for vec_row in vec_rows:
                for free_row in vec_rows:
                    jac_rows.append(vec_inds[vec_row])
                    jac_cols.append(vec_inds[free_row])
                    grads.append(row_jac[vec_row, free_row])

        return coo_matrix(
            (grads, (jac_rows, jac_cols)),
            (self.vector_size(), self.free_size()))

    def free_to_vector_hess(self, free_val):
        hessians = []
        vec_rows = range(self.__vec_size)
        packed_shape = (self.__length, self.__vec_size)
""", """            row_jac = pos_def_matrix_free_to_vector_jac(free_val[vec_inds])
            for (vec_row, free_row) in itertools.product(vec_rows, vec_rows):
                jac_rows.append(vec_inds[vec_row])
                jac_cols.append(vec_inds[free_row])
                grads.append(row_jac[vec_row, free_row])

        return coo_matrix(
            (grads, (jac_rows, jac_cols)),
            (self.vector_size(), self.free_size()))

    def free_to_vector_hess(self, free_val):
        hessians = []
        vec_rows = range(self.__vec_size)
        packed_shape = (self.__length, self.__vec_size)
""")
ed('A', F, """        return np.hstack([ vectorize_ld_matrix(self.__val[obs, :, :]) \\
                           for obs in range(self.__length) ])
""", """        return np.concatenate([ vectorize_ld_matrix(mat) for mat in self.__val ])
""")
ed('A', F, """        vec_val = np.hstack([ vectorize_ld_matrix(
            self.__val[obs]) \\
            for obs in itertools.product(*self.__array_ranges) ])
        #print('get vector ', vec_val)
        return vec_val
""", """        mats = np.reshape(
            self.__val, (-1, self.__matrix_size, self.__matrix_size))
        return np.concatenate([ vectorize_ld_matrix(mat) for mat in mats ])
""")
ed('A', F, """        self.__array_length = np.prod(self.__array_shape)
""", """        self.__array_length = int(np.prod(self.__array_shape))
""")
ed('B', F, """    return mat[np.tril_indices(nrow)]
""", """    rows, cols = np.tril_indices(nrow)
    return mat[rows, cols]
""")
ed('B', F, """    mat_lb = mat - np.make_diagonal(
        np.full(k, diag_lb), offset=0, axis1=-1, axis2=-2)
    return vectorize_ld_matrix(log_matrix_diagonal(np.linalg.cholesky(mat_lb)))
""", """    chol = np.linalg.cholesky(mat - np.diag(np.ones(k) * diag_lb))
    return vectorize_ld_matrix(log_matrix_diagonal(chol))
""")
ed('B', F, """    ld_mat = unvectorize_ld_matrix(vec_val)
    mat_val = ld_mat + ld_mat.transpose()
""", """    ld_mat = unvectorize_ld_matrix(vec_val)
    mat_val = ld_mat + np.swapaxes(ld_mat, 0, 1)
""")
ed('B', F, """    mat_size = int(0.5 * (math.sqrt(1 + 8 * vec.size) - 1))
    if mat_size * (mat_size + 1) / 2 != vec.size: \\
""", """    mat_size = int(round(0.5 * (np.sqrt(8 * vec.size + 1) - 1)))
    if mat_size * (mat_size + 1) // 2 != vec.size: \\
""")
ed('B', F, """        return \\
            np.hstack(np.array([ \\
""", """        return \\
            np.hstack(np.array([ \\
""") if False else None
ed('B', F, """        return np.hstack(np.array([ \\
            pack_posdef_matrix(self.__val[obs], diag_lb=self.__diag_lb) \\
                    for obs in itertools.product(*self.__array_ranges)]))
""", """        return np.concatenate([ \\
            pack_posdef_matrix(self.__val[obs], diag_lb=self.__diag_lb) \\
                    for obs in itertools.product(*self.__array_ranges)])
""")
ed('B', F, """        linear_obs = np.ravel_multi_index(obs, self.__array_shape) * \\
                     self.__vec_size
        return slice(linear_obs, linear_obs + self.__vec_size)
""", """        linear_obs = 0
        for ind, dim in zip(obs, self.__array_shape):
            linear_obs = linear_obs * dim + ind
        start = linear_obs * self.__vec_size
        return slice(start, start + self.__vec_size)
""")
ed('B', F, """        default_val = np.diag(np.full(self.__matrix_size, diag_lb + 1.0))
            self.__val = np.broadcast_to(default_val, self.__shape)
        else:
            self.set(val)

    def __str__(self):
        return self.name + ':\\n' + str(self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        if tuple(np.shape(val)) != tuple(self.__shape):
            raise ValueError('Array is the wrong size')
        self.__val = val
    def get(self):
        return self.__val

    def free_obs_slice""", """        default_val = np.diag(np.full(self.__matrix_size, diag_lb + 1.0))
            self.__val = np.array([ default_val ] * self.__length)
        else:
            self.set(val)

    def __str__(self):
        return self.name + ':\\n' + str(self.__val)
    def names(self):
        return [ self.name ]
    def dictval(self):
        return self.__val.tolist()

    def set(self, val):
        if tuple(np.shape(val)) != tuple(self.__shape):
            raise ValueError('Array is the wrong size')
        self.__val = val
    def get(self):
        return self.__val

    def free_obs_slice""")
ed('B', F, """            self.__val = np.diag(np.full(self.__size, diag_lb + 1.0))
        else:
""", """            self.__val = (diag_lb + 1.0) * np.eye(self.__size)
        else:
""")

# ---------------------------------------------------------------- SimplexParams
F = 'SimplexParams.py'
ed('A', F, """    free_mat_aug = np.hstack(
        [np.full((free_mat.shape[0], 1), 0.), free_mat])
""", """    free_mat_aug = np.concatenate(
        [np.zeros((free_mat.shape[0], 1)), free_mat], axis=1)
""")
ed('A', F, """    log_norm = np.expand_dims(sp.misc.logsumexp(free_mat_aug, 1), axis=1)
    return np.exp(free_mat_aug - log_norm)
""", """    log_norm = sp.misc.logsumexp(free_mat_aug, axis=1, keepdims=True)
    return np.exp(free_mat_aug - log_norm)
""")
ed('A', F, """    return np.log(simplex_mat[:, 1:]) - \\
           np.expand_dims(np.log(simplex_mat[:, 0]), axis=1)
""", """    log_mat = np.log(simplex_mat)
    return log_mat[:, 1:] - log_mat[:, 0][:, None]
""")
ed('A', F, """    return constrain_simplex_matrix(np.expand_dims(free_vec, 0)).flatten()
""", """    return constrain_simplex_matrix(free_vec[None, :])[0]
""")
ed('A', F, """    z_last = z[1:]
    z_jac = -1 * np.outer(z, z_last)
    for k in range(1, len(z)):
        z_jac[k, k - 1] += z[k]
    return z_jac
""", """    return (np.diag(z) - np.outer(z, z))[:, 1:]
""")
ed('A', F, """    z_outer = np.expand_dims(2 * np.outer(z_last, z_last), axis=0)
    z_hess = np.tile(z_outer, (len(z), 1, 1))
""", """    z_outer = 2 * np.outer(z_last, z_last)
    z_hess = np.array([ z_outer for _ in range(len(z)) ])
""")
ed('A', F, """        for j in range(1, len(z)):
            if j == k:
                z_hess[k, j - 1, j - 1] += 1 - z[j]
            else:
                z_hess[k, j - 1, j - 1] += -z[j]
        z_hess[k, :, :] *= z[k]
""", """        z_hess[k] -= np.diag(z_last)
        z_hess[k, k - 1, k - 1] += 1
        z_hess[k] = z_hess[k] * z[k]
""")
ed('B', F, """    log_norm = np.expand_dims(sp.misc.logsumexp(free_mat_aug, 1), axis=1)
    return np.exp(free_mat_aug - log_norm)
""", """    row_max = np.max(free_mat_aug, axis=1, keepdims=True)
    exp_mat = np.exp(free_mat_aug - row_max)
    return exp_mat / np.sum(exp_mat, axis=1, keepdims=True)
""")
ed('B', F, """    return np.log(simplex_mat[:, 1:]) - \\
           np.expand_dims(np.log(simplex_mat[:, 0]), axis=1)
""", """    return np.log(simplex_mat[:, 1:] / simplex_mat[:, 0:1])
""")
ed('B', F, """            self.set(np.full(shape, 1. / shape[1]))
""", """            self.set(np.ones(shape) / shape[1])
""")
ed('B', F, """        free_mat = np.reshape(free_val, self.__free_shape)
        self.set(constrain_simplex_matrix(free_mat))
""", """        self.set(constrain_simplex_matrix(free_val.reshape(*self.__free_shape)))
""")
ed('B', F, """        return np.ravel_multi_index(
            [[row], range(self.shape()[1])], self.shape())
""", """        ncol = self.shape()[1]
        return np.arange(row * ncol, (row + 1) * ncol)
""")
ed('B', F, """        return np.product(self.__free_shape)
""", """        return self.__free_shape[0] * self.__free_shape[1]
""")
ed('C', F, """    log_norm = np.expand_dims(sp.misc.logsumexp(free_mat_aug, 1), axis=1)
    return np.exp(free_mat_aug - log_norm)
""", """    exp_mat = np.exp(free_mat_aug)
    return exp_mat / np.expand_dims(np.sum(exp_mat, 1), 1)
""")

# ---------------------------------------------------------------- ProjectionParams
F = 'ProjectionParams.py'
ed('A', F, """    xx = np.matmul(x, x.T)
    proj_parallel = np.matmul(x.T, np.linalg.solve(xx, x))
""", """    proj_parallel = x.T @ np.linalg.inv(x @ x.T) @ x
""")
ed('A', F, """    keep_cols = np.abs(evals) > 1e-8
""", """    keep_cols = evals > 0.5
""")
ed('A', F, """        self.set(np.matmul(self.__proj_basis, free_val))
    def get_free(self):
        return np.matmul(self.__proj_basis_t, self.__val)
""", """        self.set(self.__proj_basis @ free_val)
    def get_free(self):
        return np.dot(self.__val, self.__proj_basis)
""")
ed('A', F, """        return [ coo_matrix((self.__free_dim, self.__free_dim))
                 for vec_ind in range(self.vector_size()) ]
""", """        return [ coo_matrix(np.zeros((self.__free_dim, self.__free_dim)))
                 for vec_ind in range(self.vector_size()) ]
""")
ed('A', F, """            self.set(np.full(self.__dim, 0.))
""", """            self.set(np.zeros(self.__dim))
""")
ed('B', F, """        self.set(np.matmul(self.__proj_basis, free_val))
""", """        self.set(np.einsum('ij,j->i', self.__proj_basis, free_val))
""")
ed('B', F, """    keep_cols = np.abs(evals) > 1e-8
""", """    keep_cols = np.argwhere(np.abs(evals) > 1e-8)[:, 0]
""")
ed('B', F, """    assert(np.sum(keep_cols) == x.shape[1] - x.shape[0])
""", """    assert len(keep_cols) == x.shape[1] - x.shape[0]
""")
ed('B', F, """            self.__perp_subspace = np.full((1, self.__dim), 1.0)
""", """            self.__perp_subspace = np.ones(self.__dim)[None, :]
""")
ed('B', F, """        return [ coo_matrix((self.__free_dim, self.__free_dim))
                 for vec_ind in range(self.vector_size()) ]
""", """        zero = coo_matrix((self.__free_dim, self.__free_dim))
        return [ zero.copy() for _ in range(self.__dim) ]
""")

# ---------------------------------------------------------------- ParameterDictionary
F = 'ParameterDictionary.py'
ed('A', F, """        offset = 0
        for param in self.param_dict.values():
            offset = par.set_free_offset(param, vec, offset)
    def get_free(self):
        return np.hstack([ par.get_free() for par in self.param_dict.values() ])
""", """        for name, param in self.param_dict.items():
            param.set_free(vec[np.array(self.free_indices_dict[name])])
    def get_free(self):
        return np.concatenate(
            [ par.get_free() for par in self.param_dict.values() ])
""")
ed('A', F, """        jacobians = []
        for param in self.param_dict.values():
            free_offset, vec_offset, param_jac = free_to_vector_jac_offset(
                param, free_val, free_offset, vec_offset)
            jacobians.append(param_jac)
        return block_diag(jacobians)
""", """        jacobians = []
        for name, param in self.param_dict.items():
            inds = self.free_indices_dict[name]
            jacobians.append(
                param.free_to_vector_jac(free_val[inds.start:inds.stop]))
        return block_diag(jacobians, format='csr')
""")
ed('A', F, """        result = {}
        for param in self.param_dict.values():
            result[param.name] = param.dictval()
        return result
""", """        return { param.name: param.dictval()
                 for param in self.param_dict.values() }
""")
ed('A', F, """        self.__free_size = self.__free_size + param.free_size()
        self.__vector_size = self.__vector_size + param.vector_size()
""", """        self.__free_size += param.free_size()
        self.__vector_size += param.vector_size()
""")
ed('B', F, """        return np.hstack(
            [ par.get_vector() for par in self.param_dict.values() ])
""", """        pieces = []
        for param in self.param_dict.values():
            pieces.append(param.get_vector())
        return np.concatenate(pieces)
""")
ed('B', F, """        offset = 0
        for param in self.param_dict.values():
            offset = par.set_vector_offset(param, vec, offset)
""", """        for name in self.param_dict:
            inds = self.vector_indices_dict[name]
            self.param_dict[name].set_vector(vec[inds[0]:inds[-1] + 1])
""")
ed('B', F, """        if param.name in self.param_dict:
            raise ValueError(
""", """        if any(param.name == other for other in self.param_dict.keys()):
            raise ValueError(
""")
ed('B', F, """        self.free_indices_dict[param.name] = \\
            range(self.__free_size, self.__free_size + param.free_size())
""", """        free_start = self.__free_size
        self.free_indices_dict[param.name] = \\
            range(free_start, free_start + int(param.free_size()))
""")

# ---------------------------------------------------------------- NormalParams
F = 'NormalParams.py'
ed('A', F, """        e_outer = np.outer(mean, mean) + self.cov()
        return 0.5 * (e_outer + e_outer.transpose())
""", """        cov = self.cov()
        return np.outer(mean, mean) + (cov + cov.T) / 2.
""")
ed('A', F, """        return np.linalg.inv(self['info'].get())
""", """        return np.linalg.solve(self['info'].get(), np.eye(self.__dim))
""")
ed('A', F, """        return self['mean'].get()**2 + var[:, None]
""", """        return np.square(self['mean'].get()) + np.expand_dims(var, 1)
""")
ed('A', F, """        info = 1. / self.var()
        return np.sum(ef.univariate_normal_entropy(info))
""", """        return ef.univariate_normal_entropy(np.power(self.var(), -1.))
""")
ed('B', F, """        mean = self['mean'].get()
        e_outer = np.outer(mean, mean) + self.cov()
        return 0.5 * (e_outer + e_outer.transpose())
""", """        mean = self.e()
        e_outer = mean[:, None] * mean[None, :] + self.cov()
        return 0.5 * e_outer + 0.5 * np.transpose(e_outer)
""")
ed('B', F, """        return self['mean'].get()**2 + var[:, None]
""", """        mean = self['mean'].get()
        return (mean * mean + np.reshape(var, (len(var), 1)))
""")
ed('B', F, """        return self['e2'].get() - self['e'].get() ** 2
""", """        return self.e_outer() - self.e() * self.e()
""")

# ---------------------------------------------------------------- Gamma, Wishart, Dirichlet
F = 'GammaParams.py'
ed('A', F, """        return self['shape'].get() / self['rate'].get()
""", """        shape, rate = self['shape'].get(), self['rate'].get()
        return shape * rate ** -1
""")
F = 'WishartParams.py'
ed('A', F, """        return np.linalg.inv(self['v'].get()) / \\
            (self['df'].get() - self.__size - 1)
""", """        scale = 1. / (self['df'].get() - (self.__size + 1))
        return scale * np.linalg.solve(self['v'].get(), np.eye(self.__size))
""")

# ---------------------------------------------------------------- ExponentialFamilies
F = 'ExponentialFamilies.py'
ed('A', F, """def multivariate_digamma(x, size):
    x_vec = x - 0.5 * np.linspace(0, size - 1., int(size))
    return np.sum(sp.special.digamma(x_vec))
""", """def multivariate_digamma(x, size):
    total = 0.
    for k in range(int(size)):
        total = total + sp.special.digamma(x - k / 2.)
    return total
""")
ed('A', F, """    x_vec = x - 0.5 * np.linspace(0, size - 1., int(size))
    return np.sum(sp.special.gammaln(x_vec)) + \\
           0.25 * np.log(np.pi) * size * (size - 1.0);
""", """    x_vec = x - 0.5 * np.arange(int(size))
    log_pi = 0.25 * np.log(math.pi) * size * (size - 1.0)
    return log_pi + sum([ sp.special.gammaln(x_elt) for x_elt in x_vec ])
""")
ed('A', F, """    return -1 * np.sum(p * np.log(p + min_prob), axis=1)
""", """    return -np.einsum('ij,ij->i', p, np.log(p + min_prob))
""")
ed('A', F, """    return 0.5 * np.sum(-1 * np.log(info_obs) + 1 + np.log(2 * math.pi))
""", """    return 0.5 * np.sum(1 + np.log(2 * np.pi / info_obs))
""")
ed('A', F, """    sign, logdet = np.linalg.slogdet(info_obs)
    assert sign > 0
    k = info_obs.shape[0]
    return 0.5 * (-1 * logdet + k + k * np.log(2 * math.pi))
""", """    sign, logdet = np.linalg.slogdet(info_obs)
    assert sign > 0
    k = len(info_obs)
    return -0.5 * logdet + 0.5 * k * (1 + math.log(2 * math.pi))
""")
ed('A', F, """    dirichlet_dim = alpha.shape[0]
    sum_alpha = np.sum(alpha, axis=0, keepdims=True)
    log_beta = np.sum(sp.special.gammaln(alpha), axis=0, keepdims=True) - \\
               sp.special.gammaln(sum_alpha)
    entropy = \\
        log_beta - \\
        (dirichlet_dim - sum_alpha) * sp.special.digamma(sum_alpha) - \\
        np.sum((alpha - 1) * sp.special.digamma(alpha), axis=0)
    return np.squeeze(entropy, axis=0)
""", """    dirichlet_dim = alpha.shape[0]
    sum_alpha = np.sum(alpha, axis=0)
    log_beta = np.sum(sp.special.gammaln(alpha), axis=0) - \\
               sp.special.gammaln(sum_alpha)
    return \\
        log_beta + \\
        (sum_alpha - dirichlet_dim) * sp.special.digamma(sum_alpha) - \\
        np.sum((alpha - 1) * sp.special.digamma(alpha), axis=0)
""")
ed('A', F, """    v_inv_diag = np.diag(np.linalg.inv(v))
    return np.log(v_inv_diag) - \\
           sp.special.digamma(0.5 * (df - k + 1)) - np.log(2)
""", """    v_inv_diag = np.diagonal(np.linalg.inv(v))
    return np.log(0.5 * v_inv_diag) - \\
           sp.special.digamma((df - k + 1) / 2)
""")
ed('A', F, """    return (np.exp(sigma_sq) - 1) * (e_lognormal ** 2)
""", """    return np.exp(2 * mu + 2 * sigma_sq) - e_lognormal * e_lognormal
""")
ed('A', F, """    change_of_vars = np.sqrt(2) * gh_loc * \\
                1/np.sqrt(np.expand_dims(infos, axis = draws_axis)) + \\
                np.expand_dims(means, axis = draws_axis)
""", """    sds = 1 / np.sqrt(infos)
    change_of_vars = \\
        np.sqrt(2) * sds[..., None] * gh_loc + means[..., None]
""")
ed('A', F, """    return np.sum(1/np.sqrt(np.pi) * gh_weights * integrand, axis = draws_axis)
""", """    return np.dot(integrand, gh_weights) / np.sqrt(np.pi)
""")
ed('A', F, """    return -0.5 * (np.dot(obs_diff, np.matmul(prior_info, obs_diff)) + \\
                   np.trace(np.matmul(prior_info, cov_obs)))
""", """    return -0.5 * np.sum(prior_info * (np.outer(obs_diff, obs_diff) + cov_obs))
""")
ed('A', F, """    return np.dot(alpha - 1, log_e_obs)
""", """    return np.sum((alpha - 1) * log_e_obs)
""")
ed('B', F, """    x_vec = x - 0.5 * np.linspace(0, size - 1., int(size))
    return np.sum(sp.special.digamma(x_vec))
""", """    return np.sum(sp.special.digamma(x + (1 - np.arange(1, size + 1)) / 2))
""")
ed('B', F, """    return np.sum(shape - np.log(rate) + sp.special.gammaln(shape) + \\
                  (1 - shape) * sp.special.digamma(shape))
""", """    digamma_shape = sp.special.digamma(shape)
    return np.sum(shape + sp.special.gammaln(shape) - np.log(rate)) + \\
        np.sum(digamma_shape - shape * digamma_shape)
""")
ed('B', F, """    return 0.5 * (-1 * logdet + k + k * np.log(2 * math.pi))
""", """    return -0.5 * logdet + 0.5 * k * np.log(2 * math.pi * math.e)
""")
ed('B', F, """    digamma_tau0 = sp.special.digamma(tau[:, 0])
    digamma_tau1 = sp.special.digamma(tau[:, 1])
    digamma_tausum = sp.special.digamma(np.sum(tau, 1))
""", """    digamma_tau0, digamma_tau1 = sp.special.digamma(tau).T
    digamma_tausum = sp.special.digamma(tau[:, 0] + tau[:, 1])
""")
ed('B', F, """    lbeta = lgamma_tau0 + lgamma_tau1 - lgamma_tausum
""", """    lbeta = sp.special.betaln(tau[:, 0], tau[:, 1])
""")
ed('B', F, """    denom = np.sum(alpha, 0, keepdims = True)
    return alpha / denom
""", """    return alpha / alpha.sum(axis=0)
""")
ed('B', F, """    return np.exp(mu + 0.5 * sigma_sq)
""", """    return np.exp(mu) * np.sqrt(np.exp(sigma_sq))
""")
ed('B', F, """    return (np.exp(sigma_sq) - 1) * (e_lognormal ** 2)
""", """    return np.expm1(sigma_sq) * np.square(e_lognormal)
""")
ed('B', F, """    return np.sum(1/np.sqrt(np.pi) * gh_weights * integrand, axis = draws_axis)
""", """    return np.einsum('...i,i->...', integrand, gh_weights) * np.pi ** -0.5
""")
ed('B', F, """    identity_fun = lambda x : sp.special.expit(x)
""", """    identity_fun = lambda x : 1. / (1. + np.exp(-x))
""")
ed('B', F, """    return -0.5 * (np.dot(obs_diff, np.matmul(prior_info, obs_diff)) + \\
                   np.trace(np.matmul(prior_info, cov_obs)))
""", """    quad = obs_diff @ prior_info @ obs_diff
    trace = np.einsum('ij,ji', prior_info, cov_obs)
    return -0.5 * (quad + trace)
""")
ed('B', F, """    s, log_det_v = np.linalg.slogdet(v)
    assert s > 0
    return multivariate_digamma(0.5 * df, k) + \\
           k * np.log(2) + log_det_v
""", """    s, log_det_v = np.linalg.slogdet(2. * v)
    assert s > 0
    return multivariate_digamma(0.5 * df, k) + log_det_v
""")

# ---------------------------------------------------------------- Modeling
F = 'Modeling.py'
ed('A', F, """        np.expand_dims(z_sd, axis=draws_axis) * std_draws + \\
        np.expand_dims(z_mean, axis=draws_axis)

    # By dividing by the number of standard draws after summing,
    # we add the sample means for all the observations.
    # Note that
    # log(1 - p) = log(1 / (1 + exp(z))) = -log(1 + exp(z))
    logit_term = \\
        np.sum(np.log1p(np.exp(z_draws))) / std_draws.size
    return np.sum(y * z_mean) - logit_term
""", """        z_sd[..., np.newaxis] * std_draws + z_mean[..., np.newaxis]

    logit_term = np.sum(np.mean(np.log1p(np.exp(z_draws)), axis=-1))
    return np.sum(y * z_mean) - logit_term
""")
ed('A', F, """    logit_term = gh_w * np.log1p(np.exp(z_vals)) / np.sqrt(np.pi)
    if aggregate_all:
        return np.sum(logit_term)
    else:
        return np.sum(logit_term, axis=draws_axis)
""", """    logit_term = np.log1p(np.exp(z_vals)) @ gh_w / np.sqrt(np.pi)
    return np.sum(logit_term) if aggregate_all else logit_term
""")
ed('B', F, """        np.sum(np.log1p(np.exp(z_draws))) / std_draws.size
    return np.sum(y * z_mean) - logit_term
""", """        np.sum(np.logaddexp(0., z_draws)) / len(std_draws)
    return np.vdot(y, z_mean) - logit_term
""") if False else None
ed('B', F, """        np.sum(np.log1p(np.exp(z_draws))) / std_draws.size
    return np.sum(y * z_mean) - logit_term
""", """        np.sum(np.logaddexp(0., z_draws)) / len(std_draws)
    return np.sum(y * z_mean) - logit_term
""")
ed('B', F, """    logit_term = gh_w * np.log1p(np.exp(z_vals)) / np.sqrt(np.pi)
    if aggregate_all:
        return np.sum(logit_term)
""", """    logit_term = gh_w / np.sqrt(np.pi) * np.log(1 + np.exp(z_vals))
    if aggregate_all:
        return np.sum(logit_term)
""")
ed('B', F, """    return -0.5 * u_info * (u - u_mean)**2 + 0.5 * np.log(u_info) \\
           - 0.5 * np.log(2 * np.pi)
""", """    resid = u - u_mean
    return 0.5 * np.log(u_info / (2 * np.pi)) - 0.5 * u_info * resid * resid
""")

# ---------------------------------------------------------------- regression_utils
F = 'regression_utils.py'
ed('A', F, """    return np.einsum(x1, list(range(d)),
                      x2, einsum_indx2,
                      einsum_indx_out)
""", """    return np.matmul(np.swapaxes(x1, -1, -2), x2)
""")
ed('A', F, """    n_per_dim = np.prod(np.shape(y)[d2:d1])
""", """    n_per_dim = 1
    for dim in np.shape(y)[d2:d1]:
        n_per_dim = n_per_dim * dim
""")
ed('A', F, """    return np.einsum(x, einsum_indx1,
                     y, einsum_indx2, einsum_indx_out)
""", """    y_sum = y
    for _ in range(d1 - d2):
        y_sum = np.sum(y_sum, axis=d2)
    return np.sum(x * np.expand_dims(y_sum, -1), axis=-2)
""")
ed('A', F, """    x_shape = np.shape(prior_means)[0:-1] + (1, 1)
    x = np.tile(np.eye(r), x_shape)
""", """    x = np.broadcast_to(np.eye(r), np.shape(prior_means)[0:-1] + (r, r))
""")
ed('B', F, """    return np.einsum(x1, list(range(d)),
                      x2, einsum_indx2,
                      einsum_indx_out)
""", """    return np.einsum('...ij,...ik->...jk', x1, x2)
""")
ed('B', F, """    info = -2 * nat_param2
    mean = matvec_mul_last2dims(np.linalg.inv(info), nat_param1)
""", """    info = -2 * nat_param2
    mean = np.squeeze(
        np.linalg.solve(info, np.expand_dims(nat_param1, axis=-1)), axis=-1)
""")
ed('B', F, """    mean, _ = get_mvn_from_nat_params(nat_param1, nat_param2)

    return mean
""", """    return get_mvn_from_nat_params(nat_param1, nat_param2)[0]
""")

# ---------------------------------------------------------------- OptimizationUtils
F = 'OptimizationUtils.py'
ed('A', F, """    hessian_sym = 0.5 * (hessian + hessian.T)
    eig_val, eig_vec = np.linalg.eigh(hessian_sym)

    if not ev_min is None:
        eig_val[eig_val <= ev_min] = ev_min
    if not ev_max is None:
        eig_val[eig_val >= ev_max] = ev_max

    hess_corrected = np.matmul(eig_vec,
                               np.matmul(np.diag(eig_val), eig_vec.T))

    hess_inv_sqrt = \\
        np.matmul(eig_vec, np.matmul(np.diag(1 / np.sqrt(eig_val)), eig_vec.T))
    return np.array(hess_inv_sqrt), np.array(hess_corrected)
""", """    hessian_sym = (hessian + np.transpose(hessian)) / 2.0
    eig_val, eig_vec = np.linalg.eigh(hessian_sym)

    if ev_min is not None:
        eig_val = np.maximum(eig_val, ev_min)
    if ev_max is not None:
        eig_val = np.minimum(eig_val, ev_max)

    hess_corrected = (eig_vec * eig_val) @ eig_vec.T
    hess_inv_sqrt = (eig_vec / np.sqrt(eig_val)) @ eig_vec.T
    return hess_inv_sqrt, hess_corrected
""")
ed('A', F, """        init_x_cond = np.linalg.solve(objective.preconditioner, init_x)
        obj_opt = sp.optimize.minimize(
            lambda par: objective.fun_free_cond(par, verbose=disp),
            x0=init_x_cond,
            jac=objective.fun_free_grad_cond,
            hessp=objective.fun_free_hvp_cond,
""", """        init_x_cond = np.linalg.inv(objective.preconditioner) @ init_x
        def cond_fun(par):
            return objective.fun_free_cond(par, verbose=disp)
        obj_opt = sp.optimize.minimize(
            cond_fun, init_x_cond,
            jac=objective.fun_free_grad_cond,
            hessp=lambda x, p: objective.fun_free_hvp_cond(x, p),
""")
ed('A', F, """        x_diff = np.sum(np.abs(new_x - x))
        f_diff = np.abs(new_f_val - f_val)
        grad_l1 = np.sum(np.abs(grad_val))
""", """        x_diff = np.linalg.norm(new_x - x, 1)
        f_diff = abs(f_val - new_f_val)
        grad_l1 = np.linalg.norm(grad_val, ord=1)
""")
ed('A', F, """    while i < max_iter and (not converged):
        if disp:
            print('\\n---------------------------------\\n' +
                  'Repeated optimization iteration ', i)
        i += 1
""", """    for i in range(1, max_iter + 1):
        if disp:
            print('\\n---------------------------------\\n' +
                  'Repeated optimization iteration ', i)
""")
ed('A', F, """            print('Iter {}: x_diff = {}, f_diff = {}, grad_l1 = {}'.format(
                i, x_diff, f_diff, grad_l1))
""", """            print('Iter {}: x_diff = {}, f_diff = {}, grad_l1 = {}'.format(
                i, x_diff, f_diff, grad_l1))
        if converged:
            break
""")
ed('B', F, """    if not ev_min is None:
        eig_val[eig_val <= ev_min] = ev_min
    if not ev_max is None:
        eig_val[eig_val >= ev_max] = ev_max
""", """    if ev_min is not None or ev_max is not None:
        eig_val = np.clip(eig_val, ev_min, ev_max)
""")
ed('B', F, """    hess_inv_sqrt = \\
        np.matmul(eig_vec, np.matmul(np.diag(1 / np.sqrt(eig_val)), eig_vec.T))
""", """    hess_inv_sqrt = \\
        np.matmul(eig_vec, np.matmul(np.diag(eig_val ** -0.5), eig_vec.T))
""")
ed('B', F, """    x_diff = float('inf')
    f_diff = float('inf')
    converged = False
    f_val = objective.fun_free(init_x)
    i = 0
    x = init_x
""", """    converged = False
    x = init_x
    f_val = objective.fun_free(x)
    i = 0
""")
ed('B', F, """        x_conv = x_diff < xtol
        f_conv = f_diff < ftol
        grad_conv = grad_l1 < gtol
""", """        x_conv, f_conv, grad_conv = (
            x_diff < xtol, f_diff < ftol, grad_l1 < gtol)
""")
ed('B', F, """        converged = x_conv or f_conv or grad_conv
""", """        converged = any([x_conv, f_conv, grad_conv])
""")
ed('C', F, """    if not ev_min is None:
        eig_val[eig_val <= ev_min] = ev_min
    if not ev_max is None:
        eig_val[eig_val >= ev_max] = ev_max
""", """    if ev_min is not None:
        eig_val = np.where(eig_val < ev_min, ev_min, eig_val)
    if ev_max is not None:
        eig_val = np.array([ min(ev, ev_max) for ev in eig_val ])
""")

# ---------------------------------------------------------------- ConjugateGradient
F = 'ConjugateGradient.py'
ed('A', F, """    true_inds = np.argwhere(vec)
    num_true = len(true_inds)
    len1 = int(num_true / 2)
    len2 = num_true - len1
    if len1 > 0:
        split_vec1[true_inds[0:len1]] = True
    if len2 > 0:
        split_vec2[true_inds[len1:(len1 + len2)]] = True
""", """    true_inds = np.where(vec)[0]
    half = len(true_inds) // 2
    split_vec1[true_inds[:half]] = True
    split_vec2[true_inds[half:]] = True
""")
ed('A', F, """    masks = []
    ind = 0
    while ind < full_len:
        mask = np.full(full_len, False)
        ind_end = min(ind + min_mask_len, full_len)
        mask[ind:ind_end] = True
        masks.append(mask)
        ind += min_mask_len
    return masks
""", """    inds = np.arange(full_len)
    return [ (inds >= start) & (inds < start + min_mask_len)
             for start in range(0, full_len, min_mask_len) ]
""")
ed('A', F, """            vec_masked = np.zeros(len(vec))
            vec_masked[mask] = vec[mask]
""", """            vec_masked = np.where(mask, vec, 0.)
""")
ed('B', F, """            vec_masked = np.zeros(len(vec))
            vec_masked[mask] = vec[mask]
""", """            vec_masked = vec * mask
""")
ed('B', F, """    split_vec1 = np.full(len(vec), False)
    split_vec2 = np.full(len(vec), False)
    true_inds = np.argwhere(vec)
""", """    split_vec1 = np.zeros(len(vec), dtype=bool)
    split_vec2 = np.zeros_like(split_vec1)
    true_inds = np.flatnonzero(vec)
""")
ed('B', F, """    if np.sum(mask) > terminate_len:
""", """    if np.count_nonzero(mask) > terminate_len:
""")
ed('B', F, """        mask = np.full(full_len, False)
        ind_end = min(ind + min_mask_len, full_len)
        mask[ind:ind_end] = True
        masks.append(mask)
""", """        mask = np.zeros(full_len, bool)
        mask[ind:ind + min_mask_len] = True
        masks.append(mask)
""")

# ---------------------------------------------------------------- SparseObjectives
F = 'SparseObjectives.py'
ed('A', F, """        return x * y
    else:
        return np.matmul(x, y)
""", """        return x @ y
    return x @ y
""")
ed('A', F, """            x_diff = np.max(np.abs(self.x - self.last_x))
""", """            x_diff = np.abs(x - self.last_x).max()
""")
ed('A', F, """        self.value = value
        self.x = x
        self.x_array.append(x)
        self.val_array.append(value)
""", """        self.value, self.x = value, x
        self.x_array += [ x ]
        self.val_array += [ value ]
""")
ed('A', F, """    def cache_free_and_eval(self, autograd_fun, free_val, *argv, **argk):
        result = autograd_fun(free_val, *argv, **argk)
        self.par.set_free(free_val)
        return result
""", """    def cache_free_and_eval(self, autograd_fun, free_val, *argv, **argk):
        try:
            return autograd_fun(free_val, *argv, **argk)
        finally:
            self.par.set_free(free_val)
""")
ed('A', F, """    def fun_free_hvp(self, *argv, **argk):
        args, vec = argv[:-1], argv[-1]
        result = self.ag_fun_free_hvp(*args, vec, **argk)
        self.par.set_free(args[0])
        return result
""", """    def fun_free_hvp(self, free_val, *argv, **argk):
        result = self.ag_fun_free_hvp(free_val, *argv, **argk)
        self.par.set_free(free_val)
        return result
""")
ed('A', F, """        hess = self.fun_free_hessian(y, *argv, **argk)
        return safe_matmul(self.preconditioner.T,
                           safe_matmul(hess, self.preconditioner))
""", """        hess = self.fun_free_hessian(y, *argv, **argk)
        left = safe_matmul(self.preconditioner.T, hess)
        return safe_matmul(left, self.preconditioner)
""")
ed('A', F, """        grad = self.fun_free_grad(y, *argv, **argk)
        return safe_matmul(self.preconditioner.T, grad)
""", """        grad = self.fun_free_grad(y, *argv, **argk)
        return self.preconditioner.T.dot(grad)
""")
ed('A', F, """        vec_val_out = self.par_out.get_vector()
        result = autograd_fun(free_val_in)
        self.par_in.set_free(free_val_in)
        self.par_out.set_vector(vec_val_out)
        return result
""", """        old_out = deepcopy(self.par_out.get_vector())
        result = autograd_fun(free_val_in)
        self.par_out.set_vector(old_out)
        self.par_in.set_free(free_val_in)
        return result
""")
ed('A', F, """    for row in range(sub_matrix.shape[0]):
        for col in range(sub_matrix.shape[1]):
            if sub_matrix[row, col] != 0:
                mat_vals.append(sub_matrix[row, col])
                mat_rows.append(int(row_indices[row]))
                mat_cols.append(int(col_indices[col]))
""", """    for row, row_index in enumerate(row_indices):
        for col, col_index in enumerate(col_indices):
            mat_vals.append(sub_matrix[row, col])
            mat_rows.append(int(row_index))
            mat_cols.append(int(col_index))
""")
ed('A', F, """    index_param.set_vector(np.arange(0, index_param.vector_size()))
""", """    index_param.set_vector(np.array(range(index_param.vector_size())))
""")
ed('A', F, """        self.hyper_par_sensitivity = \\
            -1 * sp.linalg.cho_solve(
                self.hessian_chol, self.hyper_par_cross_hessian)
""", """        self.hyper_par_sensitivity = -np.linalg.solve(
            self.objective_hessian, self.hyper_par_cross_hessian)
""")
ed('A', F, """                self.dout_din @ self.hyper_par_sensitivity @ hyper_par_diff
""", """                np.dot(self.dout_din, np.dot(self.hyper_par_sensitivity, hyper_par_diff))
""")
ed('B', F, """        return np.squeeze(np.asarray(x.todense()))
    else:
""", """        return np.squeeze(x.toarray())
    else:
""")
ed('B', F, """        y = self.get_conditioned_x(free_val)
        return safe_matmul(
            self.preconditioner.T,
            self.fun_free_hvp(
                y, *args, safe_matmul(self.preconditioner, vec), **argk)
                )
""", """        y = self.uncondition_x(free_val)
        y_vec = safe_matmul(self.preconditioner, vec)
        hvp = self.fun_free_hvp(y, *args, y_vec, **argk)
        return safe_matmul(self.preconditioner.T, hvp)
""")
ed('B', F, """    def fun_free_grad(self, free_val, *argv, **argk):
        return self.cache_free_and_eval(
            self.ag_fun_free_grad, free_val, *argv, **argk)
""", """    def fun_free_grad(self, free_val, *argv, **argk):
        grad = self.ag_fun_free_grad(free_val, *argv, **argk)
        self.par.set_free(np.copy(free_val))
        return grad
""")
ed('B', F, """    return sp.sparse.csr_matrix(
        (mat_vals, (mat_rows, mat_cols)), (row_dim, col_dim))
""", """    return sp.sparse.coo_matrix(
        (mat_vals, (mat_rows, mat_cols)), shape=(row_dim, col_dim)).tocsr()
""")
ed('B', F, """    sp_mat = sp.sparse.csr_matrix(sp_mat)
    return { 'data': sp_mat.data,
""", """    sp_mat = sp_mat.tocsr() if sparse.issparse(sp_mat) else sparse.csr_matrix(sp_mat)
    return { 'data': sp_mat.data,
""")
ed('B', F, """        if self.last_x is None:
            x_diff = float('inf')
        else:
            x_diff = np.max(np.abs(self.x - self.last_x))

        self.last_x = x
        self.last_value = value

        if self.iter % self.print_every == 0:
            if self.callback is None:
                self.print_message()
            else:
                self.callback(self)
        self.iter += 1
""", """        self.last_x = x
        self.last_value = value

        if (self.iter % self.print_every) == 0:
            report = self.callback
            if report is None:
                self.print_message()
            else:
                report(self)
        self.iter = self.iter + 1
""")
ed('C', F, """        self.hyper_par_sensitivity = \\
            -1 * sp.linalg.cho_solve(
                self.hessian_chol, self.hyper_par_cross_hessian)
""", """        self.hyper_par_sensitivity = -1 * sp.linalg.solve(
            self.objective_hessian, self.hyper_par_cross_hessian)
""")
ed('C', F, """        self.ag_fun_free_hvp = autograd.hessian_vector_product(
            self.fun_free, argnum=0)
""", """        def free_hvp(free_val, *args, **kwargs):
            vec = args[-1]
            grad_dot = lambda x, *a, **k: np.dot(
                self.ag_fun_free_grad(x, *a, **k), vec)
            return autograd.grad(grad_dot)(free_val, *args[:-1], **kwargs)
        self.ag_fun_free_hvp = free_hvp
""")
ed('C', F, """    for row in range(sub_matrix.shape[0]):
        for col in range(sub_matrix.shape[1]):
            if sub_matrix[row, col] != 0:
                mat_vals.append(sub_matrix[row, col])
                mat_rows.append(int(row_indices[row]))
                mat_cols.append(int(col_indices[col]))
""", """    for row, col in zip(*np.nonzero(sub_matrix)):
        mat_vals.append(sub_matrix[row, col])
        mat_rows.append(int(row_indices[row]))
        mat_cols.append(int(col_indices[col]))
""")

# ---------------------------------------------------------------- ModelSensitivity
F = 'ModelSensitivity.py'
ed('A', F, """    return -1 * np.linalg.solve(hess0, vec)
""", """    return np.linalg.solve(hess0, -vec)
""")
ed('A', F, """        dinput = self.evaluate_dkinput_dhyperk(dhyper, 1, *argv,  **argk)
        for k in range(2, max_order + 1):
            dinput += self.evaluate_dkinput_dhyperk(dhyper, k) / \\
                float(math.factorial(k))

        if add_offset:
            return dinput + self.input_val0
        else:
            return dinput
""", """        terms = [ self.evaluate_dkinput_dhyperk(dhyper, 1, *argv,  **argk) ]
        terms += [ self.evaluate_dkinput_dhyperk(dhyper, k) / math.factorial(k)
                   for k in range(2, max_order + 1) ]
        dinput = sum(terms)
        return self.input_val0 + dinput if add_offset else dinput
""")
ed('A', F, """    vec = None
    for term in dterms:
        if include_highest_eta_order or (term.eta_orders[-1] == 0):
            if vec is None:
                vec = term.evaluate(eta0, eps0, deps)
            else:
                vec += term.evaluate(eta0, eps0, deps)
    return vec
""", """    used = [ term for term in dterms
             if include_highest_eta_order or term.eta_orders[-1] == 0 ]
    if not used:
        return None
    return np.sum(
        np.array([ term.evaluate(eta0, eps0, deps) for term in used ]), axis=0)
""")
ed('A', F, """        for i in range(len(self.eta_orders)):
            eta_order = self.eta_orders[i]
            if eta_order > 0:
                vec = self.eval_eta_derivs[i](eta0, eps0, deps)
                for j in range(eta_order):
                    vec_args.append(vec)

        for i in range(self.eps_order):
            vec_args.append(deps)
""", """        for i, eta_order in enumerate(self.eta_orders):
            if eta_order > 0:
                vec = self.eval_eta_derivs[i](eta0, eps0, deps)
                vec_args.extend([ vec ] * eta_order)

        vec_args.extend([ deps for _ in range(self.eps_order) ])
""")
ed('A', F, """        self.hyper_par_sensitivity = \\
            -1 * sp.linalg.cho_solve(
                self.hess0_chol, self.hyper_par_cross_hessian0)
""", """        self.hyper_par_sensitivity = sp.linalg.cho_solve(
            self.hess0_chol, -self.hyper_par_cross_hessian0)
""")
ed('A', F, """            self.hyper_par_sensitivity @ hyper_par_diff
""", """            np.matmul(self.hyper_par_sensitivity, hyper_par_diff)
""")
ed('B', F, """    unmatched_indices = [ ind for ind in range(len(dterms)) ]
    consolidated_dterms = []
    while len(unmatched_indices) > 0:
        match_term = dterms[unmatched_indices.pop(0)]
        for ind in list(unmatched_indices):
            if (match_term.eta_orders == dterms[ind].eta_orders):
                match_term = match_term.combine_with(dterms[ind])
                unmatched_indices.remove(ind)
        consolidated_dterms.append(match_term)

    return consolidated_dterms
""", """    by_orders = {}
    for term in dterms:
        key = (term.eps_order,) + tuple(term.eta_orders)
        if key in by_orders:
            by_orders[key] = by_orders[key].combine_with(term)
        else:
            by_orders[key] = term
    return list(by_orders.values())
""")
ed('B', F, """                assert np.max(np.abs(input_val - self.input_val0)) <= tolerance
                assert np.max(np.abs(hyper_val - self.hyper_val0)) <= tolerance
""", """                assert (np.abs(input_val - self.input_val0) <= tolerance).all()
                assert np.all(np.abs(hyper_val - self.hyper_val0) <= tolerance)
""")
ed('B', F, """            old_vec_args = vec_args[:-1]
            return fun_jvp(*base_args, *old_vec_args)(vec_args[-1])[1]
        else:
            return fun_jvp(*base_args)(*vec_args)[1]
""", """            return fun_jvp(*(base_args + vec_args[:-1]))(vec_args[-1])[1]
        _, jvp = fun_jvp(*base_args)(*vec_args)
        return jvp
""")
ed('B', F, """        dinput = self.evaluate_dkinput_dhyperk(dhyper, 1, *argv,  **argk)
        for k in range(2, max_order + 1):
            dinput += self.evaluate_dkinput_dhyperk(dhyper, k) / \\
                float(math.factorial(k))
""", """        dinput = self.evaluate_dkinput_dhyperk(dhyper, 1, *argv,  **argk)
        factorial = 1.0
        for k in range(2, max_order + 1):
            factorial *= k
            dinput = dinput + \\
                self.evaluate_dkinput_dhyperk(dhyper, k) / factorial
""")
ed('C', F, """    return -1 * np.linalg.solve(hess0, vec)
""", """    return -1 * sp.linalg.cho_solve(sp.linalg.cho_factor(hess0), vec)
""")
ed('C', F, """        self.hyper_par_sensitivity = \\
            -1 * sp.linalg.cho_solve(
                self.hess0_chol, self.hyper_par_cross_hessian0)
""", """        self.hyper_par_sensitivity = \\
            -np.linalg.inv(self.hess0) @ self.hyper_par_cross_hessian0
""")
