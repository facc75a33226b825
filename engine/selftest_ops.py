"""The programs of the differential self-test (see selftest.py): np is the real numpy or the symbolic backend."""
def register(op):
    # ---- element-wise functions
    for nm in 'exp sin cos tanh sinh cosh arctan cbrt sign abs square negative isnan isinf isfinite log1p expm1'.split():
        def f(np, x, nm=nm): return getattr(np, nm)(x)
        f.__name__ = nm; op('x:MN')(f)
    for nm in 'sqrt log reciprocal'.split():
        def f(np, x, nm=nm): return getattr(np, nm)(x)
        f.__name__ = nm; op('x:MN?p')(f)
    for nm in 'maximum minimum add subtract multiply fmax fmin arctan2 hypot heaviside'.split():
        def f(np, x, y, nm=nm): return getattr(np, nm)(x, y)
        f.__name__ = nm; op('x:MN y:N')(f)
    for nm in 'true_divide power'.split():
        def f(np, x, y, nm=nm): return getattr(np, nm)(x, y)
        f.__name__ = nm; op('x:MN?p y:N?p')(f)
    for nm in 'logical_and logical_or'.split():
        def f(np, x, y, nm=nm): return getattr(np, nm)(x, y)
        f.__name__ = nm; op('x:MN?b y:N?b')(f)
    @op('x:MN y:M1')
    def arith(np, x, y): return x + y, x - y, x * y, -x, 2 - x, 3. * y, x ** 2, abs(x), x + 1
    @op('x:MN?p y:M1?p')
    def quotients(np, x, y): return x / y, 1 / x, x ** -1, x ** -2, x ** .5, 2. / (1 + y), x ** y
    @op('x:MN y:N')
    def comparisons(np, x, y): return x < y, x <= y, x > y, x >= y, x == y, x != y, x < 0, 0 <= x
    @op('i:MN?n j:N?n')
    def integers(np, i, j): return i + j, i * j, i - j, i % 3, i // 2, i == j, i < j, i / 2, i ** 2, i * 1.5
    @op('p:MN?b q:N?b')
    def booleans(np, p, q): return p & q, p | q, ~p, p ^ q, np.logical_not(p), p * 1., p + 0
    @op('x:MN?s')
    def special_tests(np, x): return np.isnan(x), np.isinf(x), np.isfinite(x), np.isposinf(x), np.isneginf(x)
    @op('x:MN?s')
    def nan_to_num(np, x): return np.nan_to_num(x), np.nan_to_num(x, nan=3.), np.nan_to_num(x, posinf=4., neginf=-4.)
    @op('x:MN?s')
    def clip_special(np, x): return np.clip(x, -1.5, 2.), np.clip(x, -1., 1.)
    @op('x:MN?s y:MN?s')
    def special_arith(np, x, y): return np.isnan(x + 1.), np.where(np.isnan(x), 0., x), np.maximum(x, 1.), np.fmax(x, y), x < y
    @op('x:MN y:N')
    def clip(np, x, y): return np.clip(x, -.5, .5), np.clip(x, y - 1, y + 1), x.clip(-1, 1), np.clip(x, None, .3)
    @op('x:MN c:MN?b')
    def where(np, x, c): return np.where(c, x, 0.), np.where(x > 0, x, -x), np.where(c[:, :1], x, 1)
    @op('x:MN y:MN')
    def isclose(np, x, y): return np.isclose(x, y), np.isclose(x, x + 1e-9)
    # ---- reductions
    @op('x:MNd')
    def sums(np, x): return x.sum(), x.sum(axis=-1), x.sum(axis=(1, 2)), x.sum(axis=(0, -1)), np.sum(x, axis=1, keepdims=True), x.sum(1)
    @op('x:MNd y:MN')
    def sum_products(np, x, y): return (x * y[..., None]).sum(axis=1), (x ** 2).sum(-1), ((x - x.mean(axis=1, keepdims=True)) ** 2).sum((1, 2)), (x.sum(-1) * y).sum(-1)
    @op('x:MNd')
    def means(np, x): return x.mean(), x.mean(axis=-1), np.mean(x, axis=(0, 1)), x.mean(axis=1, keepdims=True), np.var(x, axis=1), np.std(x, axis=-1)
    @op('x:MNd')
    def extrema(np, x): return x.min(), x.max(axis=-1), np.min(x, axis=1), np.amax(x, axis=0), x.max(axis=1, keepdims=True), np.max(x, axis=(-1, -2)), np.min(x, axis=(0, 2))
    @op('x:MN')
    def argext(np, x): return x.argmin(axis=-1), x.argmax(axis=-1), np.argmin(x, axis=0), np.argmax(x, axis=1), np.argmin(x[0])
    @op('x:MN i:N?n')
    def argext_transformed(np, x, i): return np.argmin(2 * x + i, axis=-1), np.argmin(-x, axis=-1), np.argmin(x + 5, axis=1), np.argmin(np.where(x < 0, x, 1.), axis=-1)
    @op('x:MN?b y:MN')
    def anyall(np, x, y): return x.any(), x.all(axis=-1), np.any(x, axis=0), np.all(y > 0), np.any(y > 0, axis=1), np.all(y <= 0, axis=-1, keepdims=True)
    @op('x:M4')
    def prods(np, x): return np.prod(x, axis=-1), np.prod(x[:, :2], axis=1)
    @op('x:MNd')
    def norms(np, x): return np.linalg.norm(x, axis=-1), np.linalg.norm(x, axis=(1, 2)), np.linalg.norm(x), np.linalg.norm(x, axis=1, keepdims=True), np.linalg.norm(x, axis=-1, ord=1), np.linalg.norm(x, axis=-1, ord=2), np.linalg.norm(x, axis=-1, ord=np.inf)
    @op('c:MN?b x:MN')
    def counts(np, c, x): return np.count_nonzero(c), np.count_nonzero(x, axis=1) * 1., c.sum(axis=1) * 1., c.sum()
    @op('x:MN w:MN?p v:N?p')
    def averages(np, x, w, v): return np.average(x, axis=1, weights=w), np.average(x, axis=1), np.average(x, axis=1, weights=v)
    @op('x:MN')
    def logsumexp(np, x):
        if np.__name__ == 'numpy' and hasattr(np, '__version__'):
            m = np.log(np.sum(np.exp(x), axis=-1)); return m, m[:, None], np.exp(x) / np.exp(x).sum(-1, keepdims=True)
        return np.logsumexp(x, axis=-1), np.logsumexp(x, axis=(-1,), keepdims=True), np.softmax(x, axis=-1)
    # ---- shapes
    @op('x:MNd')
    def transposes(np, x): return x.T, np.transpose(x, (0, 2, 1)), np.swapaxes(x, 0, 1), np.moveaxis(x, 0, -1), x.transpose(2, 0, 1), np.moveaxis(x, -1, 0), x.swapaxes(-1, -2)
    @op('x:MNd')
    def reshapes(np, x): return x.reshape(-1), x.reshape(x.shape[0], -1), x.ravel(), x.reshape(x.shape[0] * x.shape[1], x.shape[2]), x.reshape((-1, x.shape[2])), x.reshape((1,) + x.shape), x.flatten()
    @op('x:MNd')
    def reshape_back(np, x): y = x.reshape(-1, x.shape[2]); return y.reshape(x.shape), x.reshape(x.shape[0], -1).reshape(x.shape)
    @op('x:M1N')
    def squeezes(np, x): return np.squeeze(x, axis=1), x[:, 0], np.expand_dims(x, axis=0), x[None], x[..., None], np.atleast_2d(x[0, 0])
    @op('x:MN y:KN')
    def concat(np, x, y): return np.concatenate((x, y), axis=0), np.concatenate([x, x + 1], axis=1), np.vstack((x, y)), np.hstack([x, x])
    @op('x:MN y:MN')
    def stacks(np, x, y): return np.stack([x, y]), np.stack((x, y), axis=-1), np.stack((x, y), axis=1)
    @op('x:MN')
    def repeats(np, x): return np.repeat(x, 3, axis=0), np.repeat(x[:, None, :], x.shape[0], axis=1), np.repeat(x, 2, axis=1), np.tile(x, (2, 1)), np.broadcast_to(x, (2,) + x.shape)
    @op('x:MN')
    def constructors(np, x): return np.zeros(x.shape), np.ones_like(x), np.full(x.shape, 3.), np.arange(x.shape[0]), np.eye(x.shape[0]), np.zeros((x.shape[1], 2), dtype=int), np.full_like(x, 2.), np.arange(2, 5), np.eye(2, 3), np.zeros(3, dtype=bool)
    @op('x:N y:NN')
    def diags(np, x, y): return np.diag(x), np.diag(y), np.trace(y), np.outer(x, x)
    @op('i:N?n')
    def conversions(np, i): return i.astype(float), np.asarray(i, dtype=float), (i > 1).astype(int), np.array(i > 1, dtype=float), np.array(i)
    # ---- indexing: reading
    @op('x:MNd')
    def basic(np, x): return x[0], x[-1], x[:, 0], x[..., 0], x[:, -1, :], x[0, ..., -1], x[:, None], x[None, ..., None], x[...], x[:, :, 0]
    @op('x:MN')
    def slices(np, x): return x[:, 1:], x[:-1], x[:, :1], x[1:, :-1], x[:, ::-1], x[:0], x[:, :2]
    @op('x:MNd i:M<N')
    def pick(np, x, i): return x[np.arange(x.shape[0]), i], x[np.arange(x.shape[0]), i, :], x[np.arange(x.shape[0]), i, 0]
    @op('x:MNd i:K<M')
    def rows(np, x, i): return x[i], x[i, 0], x[i, ...], x[(i, Ellipsis)], x[i][:, 1:], np.take(x, i, axis=0), x[:, 0][i]
    @op('x:MNd i:K<M j:KL<N')
    def batch(np, x, i, j): return x[i[:, None], j], x[i[:, None], j, ...], x[(i[:, None], j, Ellipsis)], x[i[:, None], j][..., 0]
    @op('x:MNd c:M?b')
    def rowmask(np, x, c): return x[c], x[c, 0], x[c].sum(), x[c].sum(axis=0)
    @op('x:MN c:MN?b')
    def fullmask(np, x, c): return x[c], x[c].sum(), x[x > 0], x[~c]
    @op('x:MNd c:MN?b')
    def leadmask(np, x, c): return x[c], x[c].sum(axis=-1), x[np.where(c)]
    @op('x:MNd j:KL<d')
    def lastaxis(np, x, j): return x[..., j], x[:, 0, j], x[:, :, j[0]]
    @op('x:MN i:M<N')
    def takealong(np, x, i): return np.take_along_axis(x, i[:, None], axis=1)
    @op('c:MN?b x:MN')
    def nonzeros(np, c, x): return np.where(c), np.nonzero(x > 0), np.where(c[0])[0], np.flatnonzero(c[:, 0])
    @op('x:MNd a:K<M b:KL<N')
    def nested_views(np, x, a, b): y = x[:, ::-1]; z = np.swapaxes(x, 1, 2); return y[a], z[a], z[a][:, 0], x.T[0], x[:, 1:][a]
    # ---- indexing: writing (the inputs are compared afterwards, too)
    @op('x:MNd y:Nd')
    def write_basic(np, x, y): x[0] = y; x[:, 0] = 1.; x[..., -1] += 2; return x
    @op('x:MN')
    def write_slices(np, x): x[1:] = 0.; x[:, :1] *= 3; y = x[:, ::-1]; y[:, :1] = 9.; return x, y
    @op('x:MNd c:M?b y:d')
    def write_mask(np, x, c, y): x[c] = y; return x
    @op('x:MN c:MN?b')
    def write_fullmask(np, x, c): x[c] = 5.; x[x < 0] = 0.; x[~c] += 1; return x
    @op('x:MNd c:M?b')
    def write_masked_values(np, x, c): x[c] = x[c] * 2 + 1; return x
    @op('x:MNd c:M?b')
    def write_where(np, x, c): i = np.where(c)[0]; x[i] = 2 * x[i]; x[i, 0] += 1.; return x
    @op('x:MNd i:M<N y:Md')
    def write_pick(np, x, i, y): x[np.arange(x.shape[0]), i] = y; x[np.arange(x.shape[0]), i, 0] += 1; return x
    @op('x:MNd c:MN?b')
    def write_leadmask(np, x, c): x[c] = 0.; x[c, :] += 1.; x[c] = -x[c]; return x
    @op('x:MN')
    def views_alias(np, x): y = x[0]; y += 1; z = x.T; z[0] = 7.; w = x.reshape(-1); w[0] = 4.; v = x[:, None]; v *= 2; return x, y, z
    @op('x:MN')
    def copies_do_not(np, x): y = x.copy(); y += 1; z = x + 0; z[0] = 0; w = x[x > 0]; w += 1; u = np.array(x); u[...] = 1; return x, y, z, u
    @op('x:MN')
    def inplace(np, x): x += 1; x *= 2; x -= x[:1]; x[...] = x + 1; return x
    @op('x:MN y:MN')
    def rebind_after_write(np, x, y): z = x * 2; x[...] = y; w = x - z; y[0] = 1; return z, w, x
    @op('x:MNd')
    def write_ravel(np, x): y = x.reshape(x.shape[0], -1); y[:, 0] = 3.; return x, y
    @op('x:MN i:N?n')
    def write_int_float(np, x, i): i[0] = 2; x[:, 0] = i[0]; i += 1; return x, i
    @op('x:MNd c:M?b')
    def write_last_slice(np, x, c): x[c, :, 1:] = 0.; x[c, 0, :1] = 1.; return x
    @op('x:MN')
    def swap(np, x): x[0], x[-1] = x[-1].copy(), x[0].copy(); return x
    # ---- index sets
    @op('a:K<N b:L<N')
    def sets(np, a, b): return np.unique(a), np.intersect1d(a, b), np.setdiff1d(a, b), np.union1d(a, b), np.isin(a, b)
    @op('c:N?b e:N?b')
    def sets_of_masks(np, c, e):
        a, b = np.where(c)[0], np.where(e)[0]
        return np.intersect1d(a, b), np.setdiff1d(a, b), np.union1d(a, b), np.unique(np.concatenate((a, b))), np.isin(a, b), np.intersect1d(a, b, return_indices=True)
    @op('c:N?b x:Nd')
    def compress_twice(np, c, x): a = np.where(c)[0]; y = x[a]; b = np.where(y[:, 0] > 0)[0]; return y[b], a[b], x[a[b]]
    @op('c:M?b x:MN')
    def scatter(np, c, x): a = np.where(c)[0]; y = np.zeros(x.shape); y[a] = x[a] + 1; return y, y[a], y.sum(axis=1)
    # ---- products
    @op('A:MN B:Nd v:N')
    def matmuls(np, A, B, v): return A @ B, A @ v, v @ B, np.dot(A, B), np.matmul(A, B), np.dot(v, v)
    @op('A:KMN B:KNd')
    def batched_matmul(np, A, B): return A @ B, np.matmul(A, B)
    @op('A:KMN v:KN')
    def einsums(np, A, v): return np.einsum('kmn,kn->km', A, v), np.einsum('kmn->kn', A), np.einsum('kmn,kmn->k', A, A), np.einsum('...n,...n->...', v, v), np.einsum('kmn,kn->m', A, v)
    @op('x:MNd w:MN')
    def einsum_cov(np, x, w): return np.einsum('mn,mni,mnj->mij', w, x, x), np.einsum('ijk,ijl->ikl', x, x), (x[..., None] * x[..., None, :]).sum(1)
    @op('A:NN b:N c:NK', noties=True, tol=1e-6)
    def solves(np, A, b, c): return np.linalg.solve(A, b), np.linalg.solve(A, c), np.linalg.inv(A)
    @op('A:MNN b:MN1', noties=True, tol=1e-6)
    def batched_solve(np, A, b): return np.linalg.solve(A, b)
    @op('A:NN', noties=True, tol=1e-6)
    def eigen(np, A):
        w, V = np.linalg.eigh(A + A.T); return w, V @ np.diag(w) @ V.T, V.T @ V, (V * w) @ V.T, V @ V.T
    @op('A:MNN', noties=True, tol=1e-6)
    def eigen_batched(np, A):
        B = A @ np.swapaxes(A, 1, 2)
        w, V = np.linalg.eigh(B); return np.einsum('mij,mj,mkj->mik', V, w, V), V @ np.swapaxes(V, 1, 2)
    @op('A:NN', noties=True, tol=1e-6)
    def svds(np, A):
        U, s, V = np.linalg.svd(A, full_matrices=False); return U.T @ U, V @ V.T, U @ U.T, (U @ V) @ (U @ V).T, s
    # ---- programs in the style of the repository
    @op('x:MNd a:M?p f:MN')
    def consensus(np, x, a, f):
        w = -a[:, None] * f; w = w - w.max(axis=1, keepdims=True); e = np.exp(w)
        return (x * e[..., None]).sum(axis=1, keepdims=True) / e.sum(axis=1)[:, None, None]
    @op('x:MNd z:Md k:M?b')
    def step(np, x, z, k):
        i = np.where(k)[0]; d = x[i] - z[i][:, None]; x[i] -= .1 * d; x[i] += np.linalg.norm(d, axis=-1, keepdims=True); return x, d
    @op('x:MN y:MN f:M g:M')
    def keep_best(np, x, y, f, g):
        b = np.where(f > g)[0]; x[b] = y[b]; f[b] = g[b]; return x, f, b
    @op('x:MNd e:MN')
    def best(np, x, e):
        i = e.argmin(axis=-1); return x[np.arange(x.shape[0]), i], e[np.arange(x.shape[0]), i], e.min(axis=-1)
    @op('x:MNd y:MKd')
    def pairwise(np, x, y): d = np.linalg.norm(x[:, None] - y[:, :, None], axis=-1); return d, d.max(axis=(-1, -2)), np.exp(-d).sum(axis=-1)
    @op('x:Nd n:Nd r:N?p')
    def plane(np, x, n, r): s = (x * n).sum(axis=-1, keepdims=True); return x - s * n, x / np.maximum(r, 1)[:, None], np.where(np.linalg.norm(x, axis=-1, keepdims=True) > 1, x, 2 * x)
    @op('x:MN y:MN')
    def mask_store(np, x, y): p = x > 0; x[p] = y[p]; s = np.zeros(x.shape); s[p] = np.sqrt(x[p] * x[p]); return x, s
    @op('x:MNd y:MN z:MNd')
    def mask_rows(np, x, y, z): p = y < 0; x[p] = z[p]; x[p] *= 2.; return x
    @op('x:MN y:MN')
    def where_pairs(np, x, y): i, j = np.where(x < y); x[i, j] = y[i, j]; y[i, j] += 1.; return x, y
    @op('x:MNd e:MN f:MN k:M?b')
    def memory(np, x, e, f, k):
        idx = np.where(k)[0]; y = x[idx]; b = e[idx] < f[idx]; y[b] = -x[idx][b]; return y
    # ---- further spellings
    for nm in 'less less_equal greater greater_equal equal not_equal float_power'.split():
        def f(np, x, y, nm=nm): return getattr(np, nm)(x, y)
        f.__name__ = nm; op('x:MN?p y:N?p')(f)
    @op('p:MN?b q:N?b')
    def bit_ops(np, p, q): return np.logical_xor(p, q), np.invert(p), np.bitwise_and(p, q), np.bitwise_or(p, q), p.nonzero()[0]
    @op('x:MNd')
    def flips(np, x): return np.flip(x, 1), np.flip(x), np.roll(x, 1, axis=-1), np.ptp(x, axis=1), np.diff(x, axis=-1), np.diff(x, axis=0)
    @op('x:MN y:MN c:M?b')
    def selections(np, x, y, c): return np.select([x < 0, x > y], [x, y], 7.), np.compress(c, x, axis=0), np.vdot(x, y), np.ix_(np.arange(2), np.arange(3))[0]
    @op('x:MNd y:Nd w:dK')
    def contractions(np, x, y, w): return np.tensordot(x, w, axes=1), np.tensordot(x, y, axes=2), np.tensordot(x, y, axes=([1, 2], [0, 1])), np.tensordot(x, w, axes=([-1], [0]))
    @op('x:MN y:MN')
    def stacking(np, x, y): return np.dstack([x, y]), np.column_stack([x[:, 0], y[:, 0]]), np.append(x, y, axis=0), np.append(x[0], y[0]), np.atleast_3d(x)
    @op('A:NN')
    def triangles(np, A): return np.triu(A), np.tril(A), np.triu(A, 1), np.tril(A, -1), A.trace(), A.diagonal(), np.diagonal(A[None] + A[0][:, None, None], axis1=1, axis2=2)
    @op('x:MN?p')
    def logs(np, x): return np.exp2(x), np.log2(x), np.log10(x), x.var(axis=-1), x.take(0, axis=1)
    @op('x:MN e:MN')
    def put_along(np, x, e): np.put_along_axis(x, e.argmin(axis=1)[:, None], 0., axis=1); y = np.zeros((2, 3)); np.copyto(y, 1.); return x, y
    @op('x:Md')
    def prods(np, x): return np.prod(x[:, :1], axis=-1), np.stack([x, x + 1, x * 2]).prod(axis=0), np.prod(np.cos(x)[..., None], axis=-1)
    @op('p:MN?b')
    def int_counts(np, p): return int(p.sum()), p.mean(axis=1)
    @op('x:MN')
    def root_of_positive(np, x): s = np.zeros(x.shape); p = x > 0; s[p] = np.sqrt(x[p] * x[p]); return s, x * (x <= 0), x * (x < 0), np.maximum(x, 0) - x * (x >= 0)
    # ---- options of library functions: either modelled or refused, never silently ignored
    OPT = dict(sum_where=lambda np, x, c: np.sum(x, axis=1, where=c), sum_initial=lambda np, x, c: np.sum(x, axis=1, initial=3.), mean_where=lambda np, x, c: np.mean(np.abs(x), axis=0, where=np.ones_like(c)),
               max_initial=lambda np, x, c: np.max(x, axis=1, initial=5.), method_sum_where=lambda np, x, c: x.sum(axis=0, where=c), method_initial=lambda np, x, c: x.sum(0, initial=2.),
               reshape_F=lambda np, x, c: x.reshape(-1, order='F'), reshape_f_F=lambda np, x, c: np.reshape(x, (-1,), order='F'), ravel_F=lambda np, x, c: np.ravel(x, order='F'), flatten_F=lambda np, x, c: x.flatten(order='F'),
               var_ddof=lambda np, x, c: np.var(np.concatenate([x, x]), axis=0, ddof=1), std_ddof=lambda np, x, c: np.concatenate([x, x]).std(axis=0, ddof=1), maximum_where=lambda np, x, c: np.maximum(x, 0., where=np.ones_like(c)),
               isin_invert=lambda np, x, c: np.isin(x > 0, np.array([True]), invert=True), unique_counts=lambda np, x, c: np.unique(c, return_counts=True)[1], ndmin=lambda np, x, c: np.array(x, ndmin=3),
               argmax_keepdims=lambda np, x, c: np.argmax(x, axis=1, keepdims=True), any_keepdims=lambda np, x, c: np.any(c, axis=1, keepdims=True), prod_dtype=lambda np, x, c: np.prod(x[:, :1], axis=1, dtype=float),
               zeros_dtype=lambda np, x, c: np.zeros_like(x, dtype=float, order='C'), norm_ord=lambda np, x, c: (x ** 2).sum(axis=-1, keepdims=True), nansum_k=lambda np, x, c: np.nansum(x, axis=0, keepdims=True))
    for nm, f in OPT.items():
        f.__name__ = 'option_' + nm; op('x:MN c:MN?b')(f)
