from api import contract, grid
from common import *

@contract('C05', [dict(corr=c, act=a, batch=b, multi=m) for c in ('no_correction', 'heavi_side', 'heavi_side_reg') for a, b, m in
                  [('full', None, False), ('partial', None, True), ('partial', 'part', False), ('full', 'part', True)]])
def correction_in_step(k, corr, act, batch, multi):
    """drift used by the step of the plain dynamic"""
    S = Ens(k, 'CBO', act, batch, multi, noise='constant', corr=corr)
    S.step()
    dyn = S.dyn
    def g(p, q, i, j, l):
        fc = S.f.atfn(S.dd, lambda *m: S.c(i, m))
        return k.eq(k.at(dyn.drift, p, q, *l), S.corrfac(corr, S.F(i, j), fc) * S.drift(i, j, l))
    S.upd('drift', g)

@contract('C05', [dict(corr=c, act=a, batch=b, multi=m) for c in ('no_correction', 'heavi_side', 'heavi_side_reg') for a, b, m in
                  [('full', None, True), ('partial', None, False), ('partial', 'part', False), ('partial', 'part', True)]])
def correction_function(k, corr, act, batch, multi):
    """the correction applied to an arbitrary vector field with arbitrary recorded energies and consensus"""
    S = Ens(k, 'CBO', act, batch, multi, noise='constant', corr=corr, havoc_energy=True)
    dyn = S.dyn
    S.act_now(); dyn.pre_step()
    dyn.consensus = k.array('consensus', (S.K, 1) + S.dd)
    c0 = k.snap(dyn.consensus)
    v = k.array('v', (S.K, S.nu) + S.dd); v0 = k.snap(v)
    r = dyn.correction(v); S.nodup()
    k.check_shape('shape', r, (S.K, S.nu) + S.dd)
    def g(p, q, i, j, l):
        return k.eq(k.at(r, p, q, *l), S.corrfac(corr, k.at(S.energy, i, j), S.f.at(c0, p, 0)) * k.at(v0, p, q, *l))
    S.upd('corrected drift', g)

@contract('C05', [dict(cls=c, corr=r, act=a, batch=b) for c, a, b in [('CBOMemory', 'partial', None), ('CBOMemory', 'partial', 'part'), ('PSO', 'full', None), ('PSO', 'partial', 'part'), ('MirrorCBO', 'partial', None)]
                  for r in ('heavi_side', 'heavi_side_reg')])
def correction_in_memory_dynamics(k, cls, corr, act, batch):
    """memory dynamics compare the stored energy with the energy of the consensus"""
    S = Ens(k, cls, act, batch, noise='constant', corr=corr, havoc_energy=True)
    dyn = S.dyn
    S.act_now(); dyn.pre_step()
    dyn.consensus = k.array('consensus', (S.K, 1) + S.dd)
    c0 = k.snap(dyn.consensus)
    v = k.array('v', (S.K, S.nu) + S.dd); v0 = k.snap(v)
    r = dyn.correction(v); S.nodup()
    S.upd('corrected drift', lambda p, q, i, j, l: k.eq(k.at(r, p, q, *l), S.corrfac(corr, k.at(S.energy, i, j), S.f.at(c0, p, 0)) * k.at(v0, p, q, *l)))

@contract('C05', [{}])
def ties(k):
    """equal energies: the Heaviside correction drops the drift"""
    Cn = k.mod('cbx.correction')
    M, N, d = k.dim('M'), k.dim('N'), k.dim('d')
    x = k.array('x', (M, N, d)); e = k.array('e', (M, N)); c = k.array('c', (M, 1, d)); fc = k.array('fc', (M, 1))
    eq = k.array('tie', (M, N), kind='b')
    e = e * ~eq + (fc + 0 * e) * eq
    r = Cn.heavi_side_correction().correct(x, lambda z: fc, e, c)
    k.forall('strict', (M, N, d), lambda i, j, l: k.eq(k.at(r, i, j, l), k.at(x, i, j, l) if k.at(e, i, j) > k.at(fc, i, 0) else 0.))

@contract('C05', grid(name=['heaviside', '', None]))
def unknown_name(k, name):
    """a correction that does not exist is refused instead of replaced by another one"""
    k.raises('refused', lambda: k.mod('cbx.correction').get_correction(name), Exception)
