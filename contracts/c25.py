from api import contract, grid
from common import *
from c07 import CLS, kwargs
import copy

ALL = CLS + ('CBS', 'CBXDynamic', 'ParticleDynamic')
def get(k, cls): return getattr(k.mod('cbx.dynamics.pdyn' if cls == 'ParticleDynamic' else 'cbx.dynamics'), cls)
def extra(k, cls):
    kw = kwargs(k, cls)
    if cls == 'RegCombinationCBO': kw['constraints'] = [dict(name='sphere')]
    return kw
def arrays(k, o, seen=None, skip=()):
    """arrays reachable from the attributes of an object (through lists, tuples, dictionaries and objects of the package)"""
    seen = {} if seen is None else seen
    if id(o) in seen: return []
    seen[id(o)] = o
    if hasattr(o, 'shape') and hasattr(o, '__setitem__'): return [o]
    if isinstance(o, dict): return [a for v in list(o.values()) for a in arrays(k, v, seen)]
    if isinstance(o, (list, tuple)): return [a for v in o for a in arrays(k, v, seen)]
    if type(o).__module__.split('.')[0] == 'cbx': return [a for n, v in list(vars(o).items()) if n not in skip for a in arrays(k, v, seen)]
    return []

@contract('C25', [dict(cls=c, rank=r) for c in ALL for r in (1, 2, 3, 4) if (c, r) != ('CBS', 4)])
def given_positions(k, cls, rank):
    """the dynamic starts with a private copy of the given positions, infinite energies and zero iteration and time"""
    M, N = k.dim('M', hi=3), k.dim('N', hi=4); dd = ddims(k, rank == 4)
    b = {1: (), 2: (N,), 3: (M, N), 4: (M, N)}[rank]
    M1, N1 = (1, 1) if rank == 1 else ((1, N) if rank == 2 else (M, N))
    x = k.array('x0', b + dd); x0 = k.snap(x)
    f = k.objective(len(dd))
    kw = extra(k, cls)
    # only 'what is given': M, N, d arguments are irrelevant then
    dyn = get(k, cls)(f, f_dim='3D', x=x, verbosity=0, check_f_dims=False, **kw)
    k.check_shape('shape', dyn.x, (M1, N1) + dd)
    k.check('number of runs', k.ieq(dyn.M, M1)); k.check('number of particles', k.ieq(dyn.N, N1))
    k.check('dimension', len(dyn.d) == len(dd)); [k.check('dimension %d' % i, k.ieq(dyn.d[i], dd[i])) for i in range(len(dd))]
    ix = lambda i, j: {1: (), 2: (j,), 3: (i, j), 4: (i, j)}[rank]
    k.forall('positions', (M1, N1) + dd, lambda i, j, *l: k.eq(k.at(dyn.x, i, j, *l), k.at(x0, *ix(i, j), *l)))
    k.check('iteration', k.ieq(dyn.it, 0))
    if hasattr(dyn, 't') or cls != 'ParticleDynamic': k.check('time', k.eq(dyn.t, 0))
    k.forall('best energies', (M1,), lambda i: k.eq(k.at(dyn.best_energy, i), k.inf))
    k.forall('current best energies', (M1,), lambda i: k.eq(k.at(dyn.best_cur_energy, i), k.inf))
    if cls not in ('CBOMemory', 'PSO'): k.forall('energies', (M1, N1), lambda i, j: k.eq(k.at(dyn.energy, i, j), k.inf))
    # nothing the dynamic holds shares memory with the user's array: no later step, post-processing or resampling can modify it
    for A in arrays(k, dyn, skip=('f',)):
        if k.sym or A.dtype.kind == 'f':
            try: A[...] = A + 1
            except ValueError: pass                                     # read-only views
    k.forall('private copy', b + dd, lambda *i: k.eq(k.at(x, *i), k.at(x0, *i)))
    x[...] = x + 5.
    if rank >= 3: k.forall('independent of the user array', (M1, N1) + dd, lambda i, j, *l: k.eq(k.at(dyn.x, i, j, *l), k.at(x0, *ix(i, j), *l) + 1))

def seed(k):
    import numpy as np
    np.random.seed(int(k.rng.integers(1 << 30)))

@contract('C25', grid(cls=ALL))
def drawn_positions(k, cls):
    """without positions: one uniform draw on [-1, 1] of shape (M, N, d)"""
    M, N, d = (k.dim('M', hi=3), k.dim('N', hi=5), k.dim('d', hi=3)) if k.sym else (30, 40, int(k.dim('d', hi=3)))
    if not k.sym: seed(k)
    C = get(k, cls)
    n0 = len(k.draws()) if k.sym else 0
    dyn = C(k.objective(1), f_dim='3D', M=M, N=N, d=d, verbosity=0, check_f_dims=False, **extra(k, cls))
    k.check_shape('shape', dyn.x, (M, N, d))
    k.check('number of runs', k.ieq(dyn.M, M)); k.check('number of particles', k.ieq(dyn.N, N))
    if k.sym:
        u = [e for e in k.draws()[n0:] if e[0] == 'unif']
        k.check('one uniform draw', len(u) == 1)
        k.check_shape('its shape', u[0][3], (M, N, d))
        k.forall('uniform on [-1, 1]', (M, N, d), lambda *i: k.eq(k.at(dyn.x, *i), 2 * k.at(u[0][3], *i) - 1))
    else: uniform(k, dyn.x, -1., 1.)
    def missing(): C(k.objective(1), f_dim='3D', M=M, N=N, verbosity=0, check_f_dims=False, **extra(k, cls))
    k.raises('dimension is required', missing, RuntimeError)

def uniform(k, x, lo, hi):
    """statistics of at least 1200 values: bounds far beyond sampling error (6 standard deviations and more)"""
    import numpy as np
    u = np.sort((np.asarray(x, float).ravel() - lo) / (hi - lo)); n = u.size
    k.check('inside', u[0] >= 0 and u[-1] <= 1)
    k.check('distribution function', np.abs(u - np.arange(1, n + 1) / n).max() < 3.5 / np.sqrt(n))
    k.check('no repetitions', len(np.unique(u)) == n)
def normal(k, x, delta):
    import numpy as np
    from math import erf
    d = x.shape[-1]; z = np.asarray(x, float).reshape(-1, d) / delta; n = z.shape[0]
    for l in range(d):
        s = np.sort(z[:, l]); F = np.array([.5 * (1 + erf(v / 2**.5)) for v in s])
        k.check('distribution function', np.abs(F - np.arange(1, n + 1) / n).max() < 3.5 / np.sqrt(n))
        for m in range(l): k.check('uncorrelated', abs((z[:, l] * z[:, m]).mean()) < 7 / np.sqrt(n))
    k.check('no repetitions', len(np.unique(z)) == z.size)

@contract('C25', grid(rank=[1, 2, 3, 4], bounds=['default', 'given']))
def helper_uniform(k, rank, bounds):
    U = k.mod('cbx.utils.particle_init')
    if not k.sym: seed(k)
    sh = tuple(k.dim('n%d' % i, hi=3) if k.sym else int(k.dim('n%d' % i, hi=3)) for i in range(rank))
    if not k.sym: sh = (1200,) + sh[1:]
    lo, hi = (k.real('x_min'), k.real('x_max')) if bounds == 'given' else (-1., 1.)
    k.assume(k.lt(lo, hi))
    kw = dict(x_min=lo, x_max=hi) if bounds == 'given' else {}
    if k.choice([0, 1]): kw['method'] = 'uniform'
    n0 = len(k.draws()) if k.sym else 0
    x = U.init_particles(shape=sh, **kw)
    k.check_shape('shape', x, sh)
    if k.sym:
        u = k.draws()[n0:]
        k.check('one uniform draw', len(u) == 1 and u[0][0] == 'unif')
        k.check_shape('its shape', u[0][3], sh)
        k.forall('uniform on the box', sh, lambda *i: k.eq(k.at(x, *i), lo + (hi - lo) * k.at(u[0][3], *i)))
        k.forall('inside', sh, lambda *i: k.and_(k.le(lo, k.at(x, *i)), k.le(k.at(x, *i), hi)))
    else: uniform(k, x, lo, hi)

@contract('C25', grid(rank=[2, 3], delta=['default', 'given']))
def helper_normal(k, rank, delta):
    U = k.mod('cbx.utils.particle_init')
    if not k.sym: seed(k)
    sh = tuple(k.dim('n%d' % i, hi=3) if k.sym else int(k.dim('n%d' % i, hi=3)) for i in range(rank))
    if not k.sym: sh = sh[:-2] + (2500,) + sh[-1:]
    de = k.real('delta', pos=True) if delta == 'given' else 1.
    kw = dict(delta=de) if delta == 'given' else {}
    n0 = len(k.draws()) if k.sym else 0
    x = U.init_particles(shape=sh, method='normal', **kw)
    full = (1,) * (3 - rank) + sh
    k.check_shape('shape', x, full)
    if k.sym:
        u = k.draws()[n0:]
        k.check('one draw', len(u) == 1 and u[0][0] in ('mvn', 'normal'))
        kind, s, info, z = u[0]
        if kind == 'mvn':
            k.check_shape('its shape', z, full)
            k.forall('centred', (full[-1],), lambda l: k.eq(k.at(info[0], l), 0))
            k.forall('covariance', (full[-1],) * 2, lambda l, m: k.eq(k.at(info[1], l, m), k.ite(k.ieq(l, m), de * de, 0)))
            k.forall('the draw', full, lambda *i: k.eq(k.at(x, *i), k.at(z, *i)))
        else: k.forall('scaled standard normal', full, lambda *i: k.eq(k.at(x, *i), de * k.at(z, *((0,) * (3 - len(s)) + i)[3 - len(s):])))
    else: normal(k, x, de)

@contract('C25', [dict()])
def helper_rejects(k):
    U = k.mod('cbx.utils.particle_init')
    for sh in ((3,), (2, 3, 4, 1)): k.raises('normal with %d dimensions' % len(sh), lambda: U.init_particles(shape=sh, method='normal'), RuntimeError)
    k.raises('unknown method', lambda: U.init_particles(shape=(2, 3, 4), method='gaussian?'), RuntimeError)

def same(a, b):
    import numpy as np
    if isinstance(a, np.ndarray): return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    if isinstance(a, dict): return isinstance(b, dict) and list(a) == list(b) and all(same(a[q], b[q]) for q in a)
    if isinstance(a, (list, tuple)): return type(a) is type(b) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return a is b or a == b

@contract('C25', grid(cls=ALL))
def containers(k, cls):
    """constructing twice with the same argument objects: dictionaries and lists are not modified and both dynamics agree"""
    M, N, d = k.dim('M', hi=3), k.dim('N', lo=2, hi=4), k.dim('d', hi=3)
    H = k.mod('cbx.utils.history')
    class T(H.track):
        def init_history(self, dyn): dyn.history['mine'] = []
        def update(self, dyn): dyn.history['mine'].append(1)
    tr = T()
    x = k.array('x0', (M, N, d)); x0 = k.snap(x)
    track = dict(names=['x', 'energy'], extra_tracks=[tr])
    if k.choice([True, False]): track['save_int'] = 2
    user = dict(track_args=dict(track), **extra(k, cls))
    crit = lambda dyn: k.mod('numpy').zeros(dyn.M, dtype=bool)
    user['term_criteria'] = [crit, dict(name='max-it', max_it=7)] if cls != 'ParticleDynamic' else [crit]
    if cls not in ('ParticleDynamic', 'CBS'): user['batch_args'] = dict(size=1, seed=3)
    cp = copy.deepcopy({n: v for n, v in user.items() if n not in ('track_args', 'term_criteria')})
    cp['track_args'] = dict(names=['x', 'energy'], extra_tracks=[tr]); cp['track_args'].update(track); cp['term_criteria'] = [crit] + ([dict(name='max-it', max_it=7)] if cls != 'ParticleDynamic' else [])
    dyns = [get(k, cls)(k.objective(1), f_dim='3D', x=x, verbosity=0, check_f_dims=False, **user) for _ in range(2)]
    for dyn in dyns:
        k.check('arguments after construction', same(dict(user), {n: cp[n] for n in user}) if True else 0)
        dyn.history['x'].append(0); dyn.history['mine'].append(2)
    k.check('arguments after use', same(dict(user), {n: cp[n] for n in user}))
    k.check('separate histories', dyns[0].history is not dyns[1].history and len(dyns[0].history['x']) == len(dyns[1].history['x']) == 2)
    if cls != 'ParticleDynamic':
        dyns[0].reset(); k.check('arguments after reset', same(dict(user), {n: cp[n] for n in user}))
    k.forall('positions', (M, N, d), lambda *i: k.eq(k.at(x, *i), k.at(x0, *i)))

@contract('C25', [dict(cls=c, batch=b) for c in ALL if c not in ('ParticleDynamic', 'CBXDynamic') for b in (None, 'part') if (c, b) != ('CBS', 'part')])
def user_arrays_in_steps(k, cls, batch):
    """parameter arrays given by the user are not modified by steps, schedulers or resampling (nor are the positions)"""
    M, N, d = k.dim('M', hi=3), k.dim('N', lo=2, hi=4), k.dim('d', hi=3)
    al = k.array('alpha', (M, 1), pos=True); al0 = k.snap(al)
    x = k.array('x0', (M, N, d)); x0 = k.snap(x)
    kw = dict(alpha=al, **extra(k, cls))
    if batch: kw['batch_args'] = dict(size=1)
    if cls in ('CBO', 'CBOMemory', 'MirrorCBO'):
        sg, lm = k.array('sigma', (M, 1, 1)), k.array('lamda', (M, 1, 1))
        if not k.sym: kw.update(sigma=sg, lamda=lm)
    else: sg = lm = None
    sg0, lm0 = k.snap(sg) if sg is not None else None, k.snap(lm) if lm is not None else None
    if cls == 'CBS': kw['noise'] = 'covariance'
    if sg is not None: kw['term_criteria'] = [lambda dyn: k.mod('numpy').zeros(dyn.M, dtype=bool)]
    dyn = get(k, cls)(k.objective(1), f_dim='3D', x=x, verbosity=0, check_f_dims=False, **kw)
    Sc, R = k.mod('cbx.scheduler'), k.mod('cbx.utils.resampling')
    sched = Sc.scheduler([Sc.multiply(name='alpha', factor=1.5, maximum=3.), Sc.multiply(name='sigma', factor=.9)])
    if not k.sym and k.choice([False, True]): sched = Sc.scheduler([Sc.effective_sample_size(eta=.6)])
    m = k.mask('sel', M, 'any')
    rs = R.resampling([lambda dd: k.mod('numpy').where(m)[0]], sigma_indep=.3)
    for st in range(1 if k.sym else 3):
        dyn.terminate()
        if k.sym: dyn.pre_step(); dyn.inner_step()
        else: dyn.step()
        sched.update(dyn); rs(dyn)
    k.forall('alpha', (M, 1), lambda *i: k.eq(k.at(al, *i), k.at(al0, *i)))
    k.forall('positions', (M, N, d), lambda *i: k.eq(k.at(x, *i), k.at(x0, *i)))
    if sg is not None:
        k.forall('sigma', (M, 1, 1), lambda *i: k.eq(k.at(sg, *i), k.at(sg0, *i)))
        k.forall('lamda', (M, 1, 1), lambda *i: k.eq(k.at(lm, *i), k.at(lm0, *i)))

@contract('C25', grid(copy_nan=[False, True]))
def post_processing(k, copy_nan):
    """the default post-processing works on the positions of the dynamic only"""
    M, N, d = k.dim('M', hi=3), k.dim('N', hi=4), k.dim('d', hi=3)
    x = k.array('x0', (M, N, d)) if k.sym else k.specials('x0', (M, N, d)); x0 = k.snap(x)
    P = k.mod('cbx.dynamics.pdyn')
    pp = P.post_process_default(copy_nan_to_num=copy_nan)
    dyn = k.mod('cbx.dynamics').CBXDynamic(k.objective(1), f_dim='3D', x=x, verbosity=0, check_f_dims=False, post_process=pp)
    pp(dyn)
    k.forall('positions of the user', (M, N, d), lambda *i: k.ieq(k.at(x, *i), k.at(x0, *i)))
