from api import contract, grid
from common import *

CFG = [dict(act=a, batch=b, noise=n, corr='no_correction', multi=m) for a, b, n, m in [
    ('full', None, 'anisotropic', False), ('partial', None, 'anisotropic', False), ('partial', 'part', 'anisotropic', False), ('full', 'part', 'isotropic', False),
    ('partial', 'full', 'anisotropic', False), ('partial', 'concat', 'constant', False), ('partial', None, 'isotropic', False), ('full', None, 'isotropic', True),
    ('partial', 'part', 'anisotropic', True), ('partial', 'full', 'constant', True)]] + [
    dict(act='partial', batch=None, noise='anisotropic', corr='heavi_side', multi=False), dict(act='partial', batch='part', noise='constant', corr='heavi_side', multi=False),
    dict(act='full', batch='part', noise='anisotropic', corr='heavi_side_reg', multi=False)]

@contract('C03', CFG)
def cbo_step(k, act, batch, noise, corr, multi):
    S = Ens(k, 'CBO', act, batch, multi, noise, corr)
    dyn = S.dyn
    dyn.t = k.real('t'); dyn.it = k.int('it')
    t0, it0 = dyn.t, dyn.it
    S.step()
    def upd(p, q, i, j, l):
        cf = S.corrfac(corr, S.F(i, j), S.f.atfn(S.dd, lambda *m: S.c(i, m))) if corr != 'no_correction' else 1
        dr = lambda m: cf * S.drift(i, j, m)
        return k.eq(k.at(dyn.x, i, j, *l), k.at(S.x, i, j, *l) - S.lam * S.dt * dr(l) + S.sig * S.noise(noise, p, q, l, dr))
    S.upd('update', upd)
    S.frame('frozen', dyn.x, S.x)
    k.check('time', k.eq(dyn.t, t0 + S.dt))
    k.check('iteration', k.eq(dyn.it, it0 + 1))
