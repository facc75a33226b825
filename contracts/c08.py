from api import contract, grid
from common import *

def make(k, cls, var, partial, act):
    """a dynamic whose unused indices are an arbitrary list of pairwise different particles per run"""
    M, N = k.dim('M', hi=4), k.dim('N', lo=2, hi=9); dd = ddims(k)
    b = k.dim('b', hi=8); k.assume(k.lt(b, N))
    f = k.objective(1)
    box = Box([k.mask('act', M, act)])
    D = k.mod('cbx.dynamics')
    ba = dict(size=b, partial=partial, seed=k.hist(0, 99))
    if var is not None: ba['var'] = var
    dyn = getattr(D, cls)(f, f_dim='3D', x=k.array('x0', (M, N) + dd), verbosity=0, check_f_dims=False, term_criteria=[make_term(box)], batch_args=ba, post_process=lambda d: None)
    return dyn, M, N, b, dd, box

def in_range_distinct(k, nm, at, M, n, N):
    k.forall(nm + ' in range', (M, n), lambda i, q: k.and_(k.le(0, at(i, q)), k.lt(at(i, q), N)))
    k.forall(nm + ' pairwise different', (M, n, n), lambda i, q, r: k.or_(k.ieq(q, r), k.not_(k.ieq(at(i, q), at(i, r)))))

@contract('C08', grid(var=[None, 'resample', 'concat'], partial=[True, False]))
def first_epoch(k, var, partial):
    """construction: the unused indices of every run are a permutation of all particles"""
    dyn, M, N, b, dd, box = make(k, 'CBXDynamic', var, partial, 'full')
    k.check_shape('unused indices', dyn.indices, (M, N))
    in_range_distinct(k, 'unused', lambda i, q: k.at(dyn.indices, i, q), M, N, N)
    k.check('batch size', k.ieq(dyn.batch_size, b))

@contract('C08', grid(var=[None, 'resample', 'concat'], partial=[True, False], act=['full', 'partial'], left=['enough', 'too few']))
def step_from_any_state(k, var, partial, act, left):
    """one step: batch ++ remaining == unused indices before (plus, if these were too few, a fresh permutation per run)"""
    dyn, M, N, b, dd, box = make(k, 'CBXDynamic', var, partial, act)
    L = k.int('L', 0, 9)
    k.assume(k.le(L, N))
    k.assume(k.le(b, L) if left == 'enough' else k.lt(L, b))
    if k.sym:
        I = k.array('unused', (M, L), kind='i')
        pos = k.array('unused_pos', (M, N), kind='i')
        k.assume_forall((M, L), lambda i, q: k.and_(k.le(0, k.at(I, i, q)), k.lt(k.at(I, i, q), N), k.ieq(k.at(pos, i, k.at(I, i, q)), q)))
    else:
        import numpy as np
        I = np.stack([k.rng.permutation(int(N))[:int(L)] for _ in range(int(M))])
    dyn.indices = k.snap(I)
    x0 = k.snap(dyn.x)
    dyn.terminate(); dyn.step()
    B = lambda i, q: k.at(dyn.batch_idx, i, q)
    R = lambda i, q: k.at(dyn.indices, i, q)
    old = lambda i, q: k.at(I, i, q)
    k.check_shape('batch', dyn.batch_idx, (M, b))
    k.forall('batch in range', (M, b), lambda i, q: k.and_(k.le(0, B(i, q)), k.lt(B(i, q), N)))
    if left == 'enough' or var != 'concat':
        k.forall('batch pairwise different', (M, b, b), lambda i, q, r: k.or_(k.ieq(q, r), k.not_(k.ieq(B(i, q), B(i, r)))))
    if left == 'enough':
        k.forall('batch taken from the unused indices', (M, b), lambda i, q: k.ieq(B(i, q), old(i, q)))
        k.check_shape('remaining', dyn.indices, (M, L - b))
        k.forall('remaining', (M, L - b), lambda i, q: k.ieq(R(i, q), old(i, b + q)))
    elif var != 'concat':
        k.check_shape('remaining', dyn.indices, (M, N - b))
        # batch and remaining indices together are a permutation of all particles
        at = lambda i, q: k.ite(k.lt(q, b), lambda: B(i, q), lambda: R(i, q - b))
        in_range_distinct(k, 'new epoch', at, M, N, N)
    else:
        k.check_shape('remaining', dyn.indices, (M, L + N - b))
        at = lambda i, q: k.ite(k.lt(q, b), lambda: B(i, q), lambda: R(i, q - b))
        k.forall('leftovers first', (M, L), lambda i, q: k.ieq(at(i, q), old(i, q)))
        in_range_distinct(k, 'appended epoch', lambda i, q: at(i, L + q), M, N, N)
    # the indices used by the step: consensus over the batch, update of the batch or of all particles of active runs
    A = k.active(box[0])
    xc = dyn.x[dyn.consensus_idx]; xp = dyn.x[dyn.particle_idx]
    k.check_shape('consensus particles', xc, (A.K, b) + dd)
    k.forall('consensus particles', (A.K, b) + dd, lambda p, q, *l: k.eq(k.at(xc, p, q, *l), k.at(x0, A.run(p), B(A.run(p), q), *l)))
    k.check_shape('updated particles', xp, (A.K, b if partial else N) + dd)
    k.forall('updated particles', (A.K, b if partial else N) + dd, lambda p, q, *l: k.eq(k.at(xp, p, q, *l), k.at(x0, A.run(p), B(A.run(p), q) if partial else q, *l)))

@contract('C08', grid(size=['none', 'no size', 'equal', 'larger'], act=['full', 'partial']))
def all_particles(k, size, act):
    """without a batch size, or with one of at least N, every particle is used in every step"""
    M, N = k.dim('M', hi=4), k.dim('N', hi=5); dd = ddims(k)
    f = k.objective(1); box = Box([k.mask('act', M, act)])
    D = k.mod('cbx.dynamics')
    b = {'none': None, 'no size': None, 'equal': N, 'larger': N + k.int('extra', 1, 4)}[size]
    kw = {} if size == 'none' else dict(batch_args={} if size == 'no size' and k.choice([True, False]) else dict(size=b, partial=k.choice([True, False])))
    dyn = D.CBXDynamic(f, f_dim='3D', x=k.array('x0', (M, N) + dd), verbosity=0, check_f_dims=False, term_criteria=[make_term(box)], post_process=lambda d: None, **kw)
    dyn.terminate(); dyn.step()
    A = k.active(box[0])
    k.check('not batched', dyn.batched == False)
    k.check('batch size', k.ieq(dyn.batch_size, N))
    for nm, ix in (('consensus', dyn.consensus_idx), ('update', dyn.particle_idx)):
        xs = dyn.x[ix]
        k.check_shape(nm, xs, (A.K, N) + dd)
        k.forall(nm, (A.K, N) + dd, lambda p, q, *l: k.eq(k.at(xs, p, q, *l), k.at(dyn.x, A.run(p), q, *l)))

@contract('C08', grid(cls=['CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'PolarCBO', 'HyperSurfaceCBO', 'RegCombinationCBO', 'DriftConstrainedCBO'], var=[None, 'concat'], partial=[True, False]), modes='con')
def epochs(k, cls, var, partial):
    """whole histories of every dynamic: epochs, leftovers, independence of the runs"""
    import numpy as np
    dyn, M, N, b, dd, box = make(k, cls, var, partial, 'full')
    M, N, b = int(M), int(N), int(b)
    seen = [[] for _ in range(M)]         # indices of the current epoch
    same = 0; epochs_ = 0
    stream = [[] for _ in range(M)]
    left = N
    for st in range(9):
        box[0] = k.mask('act%d' % st, M, 'some')
        dyn.terminate(); dyn.step()
        bi = np.asarray(dyn.batch_idx)
        k.check('shape', bi.shape == (M, b))
        for i in range(M): stream[i] += list(bi[i])
        if var is None:
            if left < b:
                seen = [[] for _ in range(M)]; left = N
            if left == N:
                epochs_ += 1; same += M > 1 and N > 5 and b > 4 and all((bi[0] == bi[i]).all() for i in range(M))
            left -= b
            for i in range(M):
                k.check('no repetition within an epoch', not (set(seen[i]) & set(bi[i])) and len(set(bi[i])) == b)
                seen[i] += list(bi[i])
    if var == 'concat':
        for i in range(M):
            for e in range(len(stream[i]) // N):
                k.check('stream of permutations', sorted(stream[i][e * N:(e + 1) * N]) == list(range(N)))
            r = stream[i][len(stream[i]) // N * N:]
            k.check('stream of permutations (last)', len(set(r)) == len(r) and all(0 <= v < N for v in r))
        if M > 1 and N > 5: same += all(stream[0] == s for s in stream)
    k.check('runs are shuffled independently', same < max(2, epochs_) )

@contract('C08', grid(var=[None, 'concat'], partial=[True, False]), modes='con')
def shuffles(k, var, partial):
    """the permutations of different runs and epochs are different ones (12! possibilities each)"""
    import numpy as np
    D = k.mod('cbx.dynamics'); M, N = 4, 12
    ba = dict(size=6, partial=partial, seed=k.hist(0, 10**6))
    if var is not None: ba['var'] = var
    dyn = D.CBO(k.objective(1), f_dim='3D', x=k.array('x0', (M, N, 2)), verbosity=0, check_f_dims=False, batch_args=ba, term_criteria=[lambda d: np.zeros(d.M, bool)])
    dyn.terminate()
    seen = [[] for _ in range(M)]
    for st in range(6):
        dyn.step()
        for i in range(M): seen[i] += list(np.asarray(dyn.batch_idx)[i])
    perms = [tuple(s[e * N:(e + 1) * N]) for s in seen for e in range(3)]
    k.check('pairwise different', len(set(perms)) == 3 * M)
    k.check('not sorted', all(list(p) != sorted(p) for p in perms))
