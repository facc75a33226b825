from api import contract, grid
from common import *

ALL = ['CBXDynamic', 'CBO', 'CBOMemory', 'PSO', 'AdamCBO', 'MirrorCBO', 'PolarCBO', 'HyperSurfaceCBO', 'DriftConstrainedCBO', 'RegCombinationCBO', 'CBS', 'ParticleDynamic']

def boxed(k, name, new, old, T, exts):
    """finite and inside the box; values inside unchanged, outside moved to the nearest bound, NaN becomes T"""
    def f(*ix):
        v, w = k.at(old, *ix), k.at(new, *ix)
        fin = k.not_(k.or_(k.isnan(v), k.isinf(v)))
        n = k.num(v)
        return [('finite', k.not_(k.or_(k.isnan(w), k.isinf(w)))),
                ('inside', k.and_(k.le(-T, w), k.le(w, T))),
                ('unchanged', k.implies(fin, lambda: k.implies(k.and_(k.le(-T, n), k.le(n, T)), k.ieq(w, n)))),
                ('nearest bound', k.implies(fin, lambda: k.and_(k.implies(k.lt(T, n), k.ieq(w, T)), k.implies(k.lt(n, -T), k.ieq(w, -T))))),
                ('nan', k.implies(k.isnan(v), k.ieq(w, T))),
                ('infinite', k.implies(k.isinf(v), k.or_(k.ieq(w, T), k.ieq(w, -T))))]
    k.forall(name, exts, f)

@contract('C11', grid(copy=[False, True], kw=['given', 'default'], multi=[False, True]))
def post_processing(k, copy, kw, multi):
    P = k.mod('cbx.dynamics.pdyn').post_process_default
    D = k.mod('cbx.dynamics')
    M, N = k.dim('M', hi=3), k.dim('N', hi=4); dd = ddims(k, multi)
    T = k.real('T', pos=True, hi=2e9) if kw == 'given' else 1e8
    k.assume(k.lt(T, k.big))
    p = P(max_thresh=T, copy_nan_to_num=copy) if kw == 'given' else (P(copy_nan_to_num=True) if copy else P())
    dyn = D.CBXDynamic(k.objective(len(dd)), f_dim='3D', x=k.array('x0', (M, N) + dd), verbosity=0, check_f_dims=False)
    X = k.specials('x', (M, N) + dd)
    dyn.x = k.snap(X)
    E = k.array('energy', (M, N)); dyn.energy = k.snap(E)
    p(dyn)
    k.check_shape('shape', dyn.x, (M, N) + dd)
    boxed(k, 'positions', dyn.x, X, T, (M, N) + dd)
    k.forall('energies untouched', (M, N), lambda i, j: k.ieq(k.at(dyn.energy, i, j), k.at(E, i, j)))

@contract('C11', grid(cls=ALL, thresh=['default', 'given']))
def after_every_step(k, cls, thresh):
    """whatever the inner step leaves in the positions, the state after the step is finite and inside the box"""
    P = k.mod('cbx.dynamics.pdyn').post_process_default
    D = k.mod('cbx.dynamics' if cls != 'ParticleDynamic' else 'cbx.dynamics.pdyn')
    M, N = k.dim('M', hi=3), k.dim('N', hi=4); dd = ddims(k)
    T = 1e8
    kw = {}
    if thresh == 'given':
        T = k.real('T', pos=True, hi=2e9); kw['post_process'] = P(max_thresh=T); k.assume(k.lt(T, k.big))
    if cls in ('DriftConstrainedCBO', 'RegCombinationCBO'): kw['constraints'] = [dict(name='sphere')]
    C = getattr(D, cls)
    X = k.specials('x', (M, N) + dd)
    E = k.array('energy', (M, N))
    class Wild(C):
        """the inner step may leave anything in the positions"""
        def inner_step(self):
            self.x = k.snap(X); self.energy = k.snap(E)
    dyn = Wild(k.objective(1), f_dim='3D', x=k.array('x0', (M, N) + dd), verbosity=0, check_f_dims=False, track_args=dict(names=['x']), term_criteria=[make_term(Box([k.mask('act', M, 'partial')]))], **kw)
    if cls != 'ParticleDynamic': dyn.best_energy = k.array('best', (M,))
    dyn.terminate() if hasattr(dyn, 'terminate') else None
    dyn.step()
    boxed(k, 'positions', dyn.x, X, T, (M, N) + dd)

@contract('C11', grid(cls=[c for c in ALL if c != 'ParticleDynamic'], batch=[None, 'part']), modes='con')
def exploding_parameters(k, cls, batch):
    """real histories with overflowing step sizes stay inside the box"""
    import numpy as np
    if cls == 'CBS': batch = None
    kw = dict(constraints=[dict(name='sphere')]) if cls in ('DriftConstrainedCBO', 'RegCombinationCBO') else {}
    D = k.mod('cbx.dynamics')
    M, N, d = int(k.dim('M', hi=3)), int(k.dim('N', lo=2, hi=4)), int(k.dim('d', hi=3))
    if cls != 'CBS': kw['noise'] = k.choice(['isotropic', 'anisotropic', 'constant'])
    x = k.array('x0', (M, N, d)) * k.choice([1., 1e200])
    if k.choice([0, 1]): x[0, 0] = k.choice([np.nan, np.inf, -np.inf, 1e308])
    dyn = getattr(D, cls)(k.objective(1), f_dim='3D', x=x, verbosity=0, check_f_dims=False, dt=k.choice([.1, 1e10, 1e300]), sigma=k.choice([1., 1e100, 1e150]), batch_args=dict(size=N - 1) if batch else None, **kw)
    for _ in range(3):
        try: dyn.terminate(); dyn.step()
        except np.linalg.LinAlgError: from api import Discard; raise Discard()
        k.check('finite and inside', bool(np.isfinite(dyn.x).all() and (abs(dyn.x) <= 1e8).all()))
