from api import contract, grid
from common import *

def num_arr(k, v): return v if k.sym else k.snap(v)
def agree(k, name, a, b, shape, tol=None):
    a, b = num_arr(k, a), num_arr(k, b)
    k.check_shape('shape of ' + name, a, shape); k.check_shape('shape of ' + name + ' (numpy)', b, shape)
    def same(x, y):
        if k.sym: return k.eq(x, y)
        return x == y or (x != x and y != y) or abs(x - y) <= 1e-7 * (1 + abs(x))
    k.forall(name, shape, lambda *i: same(k.at(a, *i), k.at(b, *i)))

@contract('C27', grid(multi=[False, True]))
def consensus(k, multi):
    T, P = k.mod('cbx.utils.torch_utils'), k.mod('cbx.dynamics.pdyn')
    M, N = k.dim('M', hi=4), k.dim('N', hi=6); dd = ddims(k, multi)
    E = k.array('E', (M, N)) + k.choice([0., 1.]) * k.real('off', lo=-3000., hi=3000.)
    X = k.array('X', (M, N) + dd); al = k.array('alpha', (M, 1), pos=True) * k.choice([1., 1e3])
    E0, X0 = k.snap(E), k.snap(X)
    c, e = T.compute_consensus_torch(k.tensor(E), k.tensor(X), k.tensor(al))
    cn, en = P.compute_consensus_default()(E, X, al)
    agree(k, 'consensus', c, cn, (M, 1) + dd)
    agree(k, 'energy', e, E0, (M, N)); agree(k, 'energy (numpy)', en, E0, (M, N))
    if not k.sym: k.check('energy is handed back as a numpy array', type(e).__module__ == 'numpy')
    k.forall('positions unchanged', (M, N) + dd, lambda *i: k.eq(k.at(X, *i), k.at(X0, *i)))

@contract('C27', grid(multi=[False, True], factor=['one', 'per run']))
def polar_consensus(k, multi, factor):
    T, P = k.mod('cbx.utils.torch_utils'), k.mod('cbx.dynamics.polarcbo')
    M, N, L = k.dim('M', hi=3), k.dim('N', hi=5), k.dim('L', hi=4); dd = ddims(k, multi)
    E = k.array('E', (M, N)) + k.choice([0., 1.]) * k.real('off', lo=-3000., hi=3000.)
    X = k.array('X', (M, N) + dd); nl = k.array('nl', (M, L, N), nonneg=True)
    al = k.array('alpha', (M, 1, 1), pos=True); kf = 1 if factor == 'one' else k.array('kf', (M, 1, 1), pos=True)
    E0 = k.snap(E)
    t = k.tensor
    c, e = T.compute_polar_consensus_torch(t(E), t(X), t(nl), alpha=t(al), kernel_factor=kf if factor == 'one' else t(kf))
    cn, en = P.compute_polar_consensus(E, X, nl, alpha=al, kernel_factor=kf)
    agree(k, 'consensus', c, cn, (M, L) + dd)
    agree(k, 'energy', e, E0, (M, N)); agree(k, 'energy (numpy)', en, E0, (M, N))

@contract('C27', grid(axis=['last', 'first', 'two', 'middle'], keep=[False, True]))
def norm(k, axis, keep):
    T = k.mod('cbx.utils.torch_utils')
    import numpy as np
    M, N, d, e = k.dim('M', hi=3), k.dim('N', hi=4), k.dim('d', hi=3), k.dim('e', hi=3)
    sh = (M, N, d, e) if axis == 'two' else (M, N, d)
    ax = dict(last=-1, first=0, two=(2, 3), middle=1)[axis]
    x = k.array('x', sh)
    kw = dict(keepdim=True) if keep else {}
    r = T.norm_torch(k.tensor(x), axis=ax, **kw)
    red = [a % len(sh) for a in (ax if isinstance(ax, tuple) else (ax,))]
    out = tuple((1 if i in red else s) for i, s in enumerate(sh) if keep or i not in red)
    def spec(*i):
        i = list(i)
        if keep: i = [v for p, v in enumerate(i) if p not in red]
        def full(m):
            it, im = iter(i), iter(m)
            return [next(im) if p in red else next(it) for p in range(len(sh))]
        return k.sqrt(k.Sum(tuple(sh[p] for p in red), lambda *m: k.at(x, *full(m))**2))
    r = num_arr(k, r)
    k.check_shape('shape', r, out)
    k.forall('euclidean norm', out, lambda *i: k.eq(k.at(r, *i), spec(*i)))

@contract('C27', grid(thresh=['default', 'given'], multi=[False, True]))
def post_processing(k, thresh, multi):
    """special values and large entries"""
    T, P = k.mod('cbx.utils.torch_utils'), k.mod('cbx.dynamics.pdyn')
    M, N = k.dim('M', hi=3), k.dim('N', hi=4); dd = ddims(k, multi)
    kw = {}
    if thresh == 'given':
        kw['max_thresh'] = k.real('T', pos=True, hi=2e9)
        if k.sym: k.assume(k.lt(kw['max_thresh'], k.big))
    X = k.specials('x', (M, N) + dd)
    class D: pass
    a, b = D(), D()
    a.x, b.x = k.tensor(k.snap(X)), k.snap(X)
    T.post_process_default_torch(**kw)(a); P.post_process_default(**kw)(b)
    agree(k, 'positions', a.x, b.x, (M, N) + dd)
    t = kw.get('max_thresh', 1e8)
    xs = num_arr(k, a.x)
    k.forall('inside the box', (M, N) + dd, lambda *i: k.le(k.abs(k.at(xs, *i)), t))

class Replay:
    """hands out the samples drawn by another sampler, as tensors"""
    def __init__(self, k, src): self.k, self.src, self.n = k, src, 0
    def __call__(self, size=None):
        if self.n >= len(self.src.samples): self.k.fail('noise', 'more samples are drawn than by the numpy dynamic')
        s = self.src.samples[self.n]; self.n += 1
        self.k.check_shape('shape of sample', s, tuple(size))
        return self.k.tensor(s)

def pair(k, cls, act, batch, noise, multi, **kw):
    """the same dynamic twice: numpy and torch"""
    D, T = k.mod('cbx.dynamics'), k.mod('cbx.utils.torch_utils')
    M, N = k.dim('M', hi=4), k.dim('N', lo=2, hi=6); dd = ddims(k, multi)
    X0, X, AL = k.array('x0', (M, N) + dd), k.array('x', (M, N) + dd), k.array('alpha', (M, 1), pos=True)
    act = k.mask('act', M, 'full' if act == 'full' else act); box = Box([k.mask('all', M, 'full')])
    f = k.objective(len(dd)); smp = k.sampler(); rep = Replay(k, smp)
    par = dict(dt=k.real('dt', pos=True), sigma=k.real('sigma'), lamda=k.real('lamda'))
    if batch:
        b = k.dim('b', hi=5); k.assume(k.lt(b, N))
        kw['batch_args'] = dict(size=b, partial=batch != 'full', var='concat' if batch == 'concat' else 'resample', seed=3)
    C = getattr(D, cls)
    r = []
    for torch in (False, True):
        conv = k.tensor if torch else k.snap
        c = T.to_torch_dynamic(C) if torch else C
        own = dict(compute_consensus=T.compute_polar_consensus_torch) if torch and cls == 'PolarCBO' else {}
        dyn = c(f, f_dim='3D', x=conv(X0), noise=noise, sampler=rep if torch else smp, verbosity=0, check_f_dims=False,
                term_criteria=[make_term(box)], **(dict(post_process=lambda d: None) if k.sym else {}), **par, **own, **kw)
        if cls == 'MirrorCBO': dyn.y = conv(k.snap(k.array('y', (M, N) + dd)) if not r else r[0].y)
        dyn.x, dyn.alpha = conv(X), conv(AL)
        r.append(dyn)
    box[0] = act
    if batch and k.sym: r[1].indices = k.snap(r[0].indices)     # the same batches
    return r[0], r[1], box, M, N, dd, k.active(act)

STEPS = [dict(cls='CBO', act=a, batch=b, noise=n, multi=m) for a, b, n, m in [('full', None, 'anisotropic', False), ('partial', None, 'isotropic', False), ('partial', 'part', 'anisotropic', False), ('full', 'part', 'isotropic', True),
                                                                             ('partial', 'full', 'constant', False), ('partial', None, 'anisotropic', True)]] + \
        [dict(cls='MirrorCBO', act=a, batch=b, noise=n, multi=m) for a, b, n, m in [('full', None, 'anisotropic', False), ('partial', 'part', 'isotropic', False)]] + \
        [dict(cls='PolarCBO', act=a, batch=b, noise=n, multi=False) for a, b, n in [('full', None, 'anisotropic'), ('partial', 'part', 'isotropic'), ('partial', None, 'constant')]]
@contract('C27', STEPS)
def step(k, cls, act, batch, noise, multi):
    """one step of both from the same state with the same noise"""
    kw = dict(kappa=k.real('kappa', pos=True)) if cls == 'PolarCBO' else {}
    a, b, box, M, N, dd, A = pair(k, cls, act, batch, noise, multi, **kw)
    for n in range(1 if k.sym else 3):
        for dyn in (a, b):
            dyn.terminate()
            if k.sym: dyn.pre_step(); dyn.inner_step()
            else: dyn.step()
        if n == 1: box[0] = k.mask('later', M, 'partial')
        agree(k, 'positions', b.x, a.x, (M, N) + dd)
        agree(k, 'energies', b.energy, a.energy, (M, N))
        agree(k, 'consensus', b.consensus, a.consensus, k.shape(a.consensus))
        agree(k, 'drift', b.drift, a.drift, k.shape(a.drift))
        if cls == 'MirrorCBO': agree(k, 'dual variable', b.y, a.y, (M, N) + dd)
        agree(k, 'evaluations', b.num_f_eval, a.num_f_eval, (M,))
        if not k.sym:
            for q, s in (('best_energy', (M,)), ('best_particle', (M,) + dd), ('best_cur_energy', (M,)), ('best_cur_particle', (M,) + dd), ('f_min', (M,)), ('update_diff', (M,)), ('alpha', (M, 1))):
                agree(k, q, getattr(b, q), getattr(a, q), s)
            k.check('history', set(a.history) == set(b.history) and all(len(a.history[h]) == len(b.history[h]) for h in a.history))
            for h in a.history:
                for u, v in zip(a.history[h], b.history[h]): agree(k, 'history of ' + h, v, u, k.shape(u))

@contract('C27', grid(which=['normal', 'exponential', 'dynamic'], rank=[1, 2, 3]))
def samplers(k, which, rank):
    """sampled noise has the requested shape and lies on the requested device"""
    T = k.mod('cbx.utils.torch_utils')
    sh = tuple(k.dim('n%d' % i, hi=4) for i in range(rank))
    for dev in ('cpu', 'meta'):
        if which == 'dynamic':
            if dev == 'meta': continue
            C = T.to_torch_dynamic(k.mod('cbx.dynamics').CBO)
            dyn = C(k.objective(1), f_dim='3D', x=k.tensor(k.array('x0', (k.dim('M', hi=3), k.dim('N', hi=3), k.dim('d', hi=3)))), verbosity=0, check_f_dims=False, device=dev)
            s = dyn.sampler
        else: s = (T.standard_normal_torch if which == 'normal' else T.exponential_torch)(dev)
        r = s(size=sh)
        k.check_shape('shape', r, sh)
        k.check('device', str(r.device).split(':')[0] == dev)
        if not k.sym and dev == 'cpu':
            v = k.snap(r)
            k.check('finite', bool((abs(v) < 1e3).all()))
            k.check('fresh samples', v.size < 2 or not (k.snap(s(size=sh)) == v).all())
        if k.sym:
            kinds = [e[0] for e in k.draws()]
            k.check('kind of sample', any(('normal' in q) if which != 'exponential' else ('exponential' in q) for q in kinds))

@contract('C27', grid(cls=['CBO', 'MirrorCBO', 'PolarCBO']))
def conversion(k, cls):
    """a converted dynamic keeps the construction of the original"""
    T, D = k.mod('cbx.utils.torch_utils'), k.mod('cbx.dynamics')
    C0 = getattr(D, cls); C = T.to_torch_dynamic(C0)
    M, N, d = k.dim('M', hi=3), k.dim('N', hi=3), k.dim('d', hi=3)
    X = k.array('x0', (M, N, d))
    al = k.real('al', pos=True)
    if k.sym: al = 3.5
    x = k.tensor(k.snap(X))
    dyn = C(k.objective(1), f_dim='3D', x=x, alpha=al, verbosity=0, check_f_dims=False)
    k.check('is an instance of the original', isinstance(dyn, C0) and C is not C0)
    agree(k, 'positions', dyn.x, X, (M, N, d))
    k.forall('parameter', (M,), lambda i: k.eq(k.at(num_arr(k, dyn.alpha), i, 0), al) if k.sym else abs(k.at(k.snap(dyn.alpha), i, 0) - al) < 1e-6)
    xn = dyn.to_numpy(dyn.x)
    agree(k, 'to_numpy', xn, X, (M, N, d))
    # the dynamic owns its positions
    x[...] = 7.
    agree(k, 'positions are copied', dyn.x, X, (M, N, d))
    c = dyn.copy(dyn.x); c[...] = 5.
    agree(k, 'copy is separate', dyn.x, X, (M, N, d))
    # random initial positions
    e = C(k.objective(1), f_dim='3D', M=M, N=N, d=d, verbosity=0, check_f_dims=False)
    k.check_shape('random positions', e.x, (M, N, d))
    xs = num_arr(k, e.x)
    k.forall('random positions in [-1,1]', (M, N, d), lambda *i: k.le(k.abs(k.at(xs, *i)), 1))
