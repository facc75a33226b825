from api import contract, grid
from common import *
from c07 import CLS

RESET = {'it', 't', 'history', 'tracks', 'track_it', 'save_int', 'track_args'}
def is_array(k, v): return hasattr(v, 'shape') and hasattr(v, 'dtype' if not k.sym else 'exts') and not isinstance(v, type)
def freeze(k, dyn):
    """every other part of the state: arrays by value, the rest by identity (small containers by content)"""
    s = {}
    for n, v in list(vars(dyn).items()):
        if n in RESET: continue
        if is_array(k, v): s[n] = ('array', v, k.snap(v))
        elif isinstance(v, (list, tuple)): s[n] = ('items', v, list(v))
        elif isinstance(v, dict): s[n] = ('dict', v, dict(v))
        else: s[n] = ('object', v, None)
    return s
def same_thing(a, b): return a is b or (isinstance(a, (int, float, str, bool, type(None))) and a == b) or getattr(a, '__func__', 0) is getattr(b, '__func__', 1)
def unchanged(k, name, dyn, s):
    now = {n: v for n, v in vars(dyn).items() if n not in RESET}
    k.check(name + ': no attribute removed', set(s) <= set(now))
    for n, (kind, old, val) in s.items():
        if n not in now: continue
        v = now[n]
        if kind == 'array':
            if not is_array(k, v): k.fail(name, n + ' is no array any more'); continue
            k.check_shape('%s: shape of %s' % (name, n), v, k.shape(val))
            k.forall('%s: %s' % (name, n), k.shape(val), lambda *i: k.iff(k.at(v, *i), k.at(val, *i)) if bool_array(k, val) else same_entry(k, k.at(v, *i), k.at(val, *i)))
        elif kind == 'items': k.check('%s: %s' % (name, n), len(v) == len(val) and all(same_thing(a, b) for a, b in zip(v, val)))
        elif kind == 'dict': k.check('%s: %s' % (name, n), set(v) == set(val) and all(same_thing(v[q], val[q]) for q in v))
        elif hasattr(v, 't') or hasattr(old, 'op'): k.check('%s: %s' % (name, n), k.eq(v, old))
        else: k.check('%s: %s' % (name, n), same_thing(v, old))
def bool_array(k, a): return getattr(a, 'kind', None) == 'b' or (not k.sym and a.dtype == bool)
def same_entry(k, a, b): return k.eq(a, b) if k.sym else (a == b or (a != a and b != b))

TRK = {'default': None, 'empty': dict(names=[]), 'known': dict(names=['x', 'energy', 'update_norm', 'consensus', 'drift', 'drift_mean']), 'other': dict(names=['best_energy', 'num_f_eval', 'x'], save_int=3), 'extra': dict(names=['energy'], save_int=2)}

def setup(k, cls, trk, base='cbx.dynamics'):
    D = k.mod('cbx.dynamics' if cls != 'ParticleDynamic' else 'cbx.dynamics.pdyn')
    H = k.mod('cbx.utils.history')
    M, N, d = k.dim('M', hi=3), k.dim('N', lo=2, hi=4), k.dim('d', hi=3)
    cfg = TRK[trk]
    args = dict(cfg) if cfg is not None else None
    log = []
    if args is not None and 'names' in args:
        args['names'] = [n for n in args['names'] if cls != 'ParticleDynamic' or n in ('x', 'energy', 'update_norm', 'best_energy', 'num_f_eval')]
    if trk == 'extra':
        class T(H.track):
            def init_history(self, dyn): dyn.history['own'] = []
            def update(self, dyn): dyn.history['own'].append(dyn.it)
        args['extra_tracks'] = [T()]
    names = args['names'] if args is not None else ([] if cls == 'CBS' else ['update_norm', 'energy'])
    si = 1 if args is None else args.get('save_int', 1)
    expect = set(names) | ({'own'} if trk == 'extra' else set()) | ({'particle_idx'} if 'drift' in names else set())
    kw = dict(constraints=[dict(name='sphere')]) if cls in ('DriftConstrainedCBO', 'RegCombinationCBO') else {}
    X0 = k.array('x0', (M, N, d))
    return D, getattr(D, cls), dict(f_dim='3D', x=X0, verbosity=0, check_f_dims=False, track_args=args, **kw), args, expect, si, (M, N, d)

def fresh_history(k, dyn, expect, si):
    """exactly as at the start of a dynamic"""
    k.check('iteration count', k.ieq(dyn.it, 0))
    if hasattr(dyn, 't'): k.check('time', k.eq(dyn.t, 0))
    k.check('no recorded step', k.ieq(dyn.track_it, 0))
    k.check('recording interval', k.ieq(dyn.save_int, si))
    k.check('recorded quantities', set(dyn.history) == expect)
    k.check('empty histories', all(len(h) == (1 if n == 'x' else 0) for n, h in dyn.history.items()))
    if 'x' in dyn.history:
        h = dyn.history['x'][0]
        k.check_shape('shape of the initial positions', h, k.shape(dyn.x))
        k.forall('initial positions', k.shape(dyn.x), lambda *i: same_entry(k, k.at(h, *i), k.at(dyn.x, *i)))

@contract('C30', [dict(cls=c, trk=t) for c in CLS + ('CBS',) for t in ('default', 'known')] + [dict(cls=c, trk=t) for c in ('CBO', 'ParticleDynamic', 'PSO') for t in TRK if c == 'ParticleDynamic' or t not in ('default', 'known')])
def reset(k, cls, trk):
    """reset from an arbitrary state, any number of times"""
    D, C, kw, args, expect, si, (M, N, d) = setup(k, cls, trk)
    if cls == 'CBS': kw['noise'] = 'covariance'
    dyn = C(k.objective(1), **kw)
    if trk != 'default' or cls != 'CBS': fresh_history(k, dyn, expect, si)
    expect = set(dyn.history)
    # arbitrary later state
    if not k.sym and cls != 'ParticleDynamic':
        for _ in range(k.hist(0, 4)): dyn.terminate(); dyn.step()
    for n in ('x', 'energy', 'best_energy', 'best_cur_energy', 'best_particle', 'best_cur_particle', 'alpha', 'y', 'v', 'm', 'consensus', 'drift', 'update_diff', 'num_f_eval'):
        v = getattr(dyn, n, None)
        if v is not None and is_array(k, v): setattr(dyn, n, k.array(n + '_now', k.shape(v)))
    dyn.it = k.int('it', 0, 9); dyn.track_it = k.int('events', 0, 9)
    if hasattr(dyn, 't'): dyn.t = k.real('t')
    for h in dyn.history.values():
        for _ in range(k.hist(0, 2) if not k.sym else 2): h.append(k.array('past', (M, d)))
    past = dyn.history; lens = {n: len(h) for n, h in past.items()}
    cfg = None if args is None else {q: (v, list(v) if isinstance(v, list) else v) for q, v in args.items()}
    for r in range(3):
        s = freeze(k, dyn)
        dyn.reset()
        unchanged(k, 'left alone', dyn, s)
        fresh_history(k, dyn, expect, si)
        # something is recorded between the resets
        for h in dyn.history.values(): h.append(k.array('later', (M, d)))
        dyn.it = k.int('it%d' % r, 0, 9); dyn.track_it = k.int('ev%d' % r, 0, 9)
        if hasattr(dyn, 't'): dyn.t = k.real('t%d' % r)
    k.check('earlier histories are not modified', dyn.history is not past and {n: len(h) for n, h in past.items()} == lens)
    if cfg is not None: k.check('configuration not modified', set(args) == set(cfg) and all(args[q] is v and (w == v if isinstance(v, (list, int)) else True) for q, (v, w) in cfg.items()))

@contract('C30', grid(cls=['CBO', 'PSO', 'MirrorCBO', 'AdamCBO', 'PolarCBO', 'HyperSurfaceCBO', 'CBOMemory', 'DriftConstrainedCBO'], trk=['default', 'known', 'other', 'extra']))
def steps_after_reset(k, cls, trk):
    """iteration, time and recording of the following steps are those of the first steps (any inner step)"""
    D, C, kw, args, expect, si, (M, N, d) = setup(k, cls, trk)
    st = {n: k.array(n + '_new', s) for n, s in dict(x=(M, N, d), energy=(M, N), consensus=(M, 1, d), drift=(M, N, d)).items()}
    class Any(C):
        def inner_step(self):
            for n, v in st.items(): setattr(self, n, k.snap(v))
    dt = k.real('dt', pos=True)
    dyn = Any(k.objective(1), dt=dt, **kw)
    dyn.it = k.int('it', 0, 9); dyn.t = k.real('t'); dyn.track_it = k.int('events', 0, 9)
    dyn.best_energy = k.array('best', (M,))
    dyn.terminate()
    dyn.reset()
    for n in range(4):
        dyn.step()
        k.check('iteration', k.ieq(dyn.it, n + 1))
        k.check('time', k.eq(dyn.t, (n + 1) * dt))
        ev = n // si + 1
        k.check('recorded steps', k.ieq(dyn.track_it, ev))
        k.check('entries', set(dyn.history) == expect and all(len(h) == ev + (1 if q == 'x' else 0) for q, h in dyn.history.items()))
    if trk == 'extra': k.check('iterations seen by the own track', dyn.history['own'] == [n for n in range(4) if n % si == 0])

@contract('C30', grid(cls=CLS + ('CBS',)), modes='con')
def restart(k, cls):
    """a run after a reset compared with the run of an untouched copy continuing without reset"""
    import numpy as np, copy
    D, C, kw, args, expect, si, (M, N, d) = setup(k, cls, 'other')
    kw['max_it'] = 5
    if cls == 'CBS': kw['noise'] = 'covariance'
    else: kw['noise'] = k.choice(['isotropic', 'anisotropic'])
    if cls not in ('CBS', 'ParticleDynamic') and k.choice([0, 1]): kw['batch_args'] = dict(size=max(1, int(N) - 1))
    if cls == 'ParticleDynamic': return
    dyn = C(k.objective(1), **kw)
    dyn.optimize(sched=None)
    k.check('first run', dyn.it == 5 and len(dyn.history['best_energy']) == 2)
    xe, ne = dyn.x.copy(), dyn.num_f_eval.copy()
    dyn.reset()
    k.check('kept', np.array_equal(dyn.x, xe, equal_nan=True) and np.array_equal(dyn.num_f_eval, ne))
    other = copy.deepcopy(dyn)
    np.random.seed(k.rng.integers(2**31)); stt = np.random.get_state()
    dyn.optimize(sched=None)
    k.check('second run', dyn.it == 5 and abs(dyn.t - 5 * dyn.dt) < 1e-12 and dyn.track_it == 2 and all(len(h) == 2 + (q == 'x') for q, h in dyn.history.items()))
    k.check('evaluations continue', bool((dyn.num_f_eval > ne).all()))
    k.check('starts where the first one ended', np.array_equal(dyn.history['x'][0], xe, equal_nan=True))
