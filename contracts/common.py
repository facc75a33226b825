"""Building blocks of the contracts: ensembles in an arbitrary state, specification functions."""
def ddims(k, multi=False):
    """shape of one particle: a vector, a matrix (multi=True) or an array with `multi` axes"""
    if not multi: return (k.dim('d', hi=3),)
    return tuple(k.dim('d%d' % (a + 1), hi=2) for a in range(max(2, int(multi))))
def make_term(mask_box):
    """a user termination criterion: run i is terminated iff mask_box[0][i] is false"""
    def crit(dyn): return ~mask_box[0]
    return crit
class Box(list): pass
def isum(k, exts, f): return k.Sum(exts, f)

class Ens:
    """A dynamic of the real code in an arbitrary state.

    Construction runs the real constructor; afterwards the positions, alpha, energies, best results and evaluation counts are
    replaced by arbitrary values.  `act`: which runs are active; `batch`: None | 'part' | 'full' | 'concat' (partial, concatenating).
    """
    def __init__(self, k, cls='CBO', act='full', batch=None, multi=False, noise='anisotropic', corr='no_correction', polar=False,
                 havoc_energy=False, dd=None, M=None, N=None, f=None, warm=2, module='cbx.dynamics', set_alpha=True, build=None, xlo=-2., xhi=2., **kw):
        self.k = k
        D = k.mod(module)
        self.M = k.dim('M', hi=4) if M is None else M
        self.N = N if N is not None else (k.dim('N', lo=2, hi=6) if batch else k.dim('N', hi=5))
        self.dd = dd if dd is not None else ddims(k, multi)
        self.f = f if f is not None else k.objective(len(self.dd))
        self.smp = k.sampler()
        self.dt, self.sig, self.lam = k.real('dt', pos=True), k.real('sigma'), k.real('lamda')
        self.x_init = k.array('x0', (self.M, self.N) + self.dd, lo=xlo, hi=xhi)
        self.act = k.mask('act', self.M, 'full' if act == 'full' else act)
        self.full_first = k.mask('all', self.M, 'full')
        self.box = Box([self.full_first])
        args = dict(f_dim='3D', x=self.x_init, noise=noise, sampler=self.smp, dt=self.dt, sigma=self.sig, lamda=self.lam, verbosity=0, check_f_dims=False,
                    post_process=lambda d: None, term_criteria=[make_term(self.box)], correction=corr)
        self.eps_c = None
        if corr == 'heavi_side_reg':
            self.eps_c = k.real('eps_c', pos=True); args['correction_eps'] = self.eps_c
        self.batched = batch is not None
        self.partial = batch != 'full'
        self.b = None
        if self.batched:
            self.b = k.dim('b', hi=5)
            k.assume(k.lt(self.b, self.N))
            args['batch_args'] = dict(size=self.b, partial=self.partial, var='concat' if batch == 'concat' else 'resample', seed=k.hist(0, 99))
        args.update(kw)
        C = getattr(D, cls) if isinstance(cls, str) else cls
        self.dyn = dyn = C(self.f, **args)
        w = k.hist(0, warm)
        for s in range(w):          # concrete runs also reach the pre-state through earlier steps
            if s > 0: self.box[0] = self.act
            dyn.terminate(); dyn.step()
        self.box[0] = self.act
        same = not k.sym and w > 0 and k.hist(0, 1)         # the state changes within the same arrays
        def put(name, v):
            old = getattr(dyn, name, None)
            if same and type(old) is type(v) and old.shape == v.shape and old.dtype == v.dtype and old.flags.writeable: old[...] = v
            else: setattr(dyn, name, v)
        put('x', k.array('x', (self.M, self.N) + self.dd, lo=xlo, hi=xhi))
        self.x = k.snap(dyn.x)
        self.alpha = k.array('alpha', (self.M, 1), pos=True) if set_alpha else None
        if set_alpha: put('alpha', k.snap(self.alpha))
        self.energy = None
        if havoc_energy:
            self.energy = k.array('energy', (self.M, self.N)); put('energy', k.snap(self.energy))
        self.A = k.active(self.act)
        self.K = self.A.K
        self.s0 = len(self.smp.samples)
    # ---- derived quantities
    @property
    def nc(self): return self.b if self.batched else self.N             # particles in the consensus
    @property
    def nu(self): return self.b if self.batched and self.partial else self.N    # updated particles per run
    def B(self, i, q): return self.k.at(self.dyn.batch_idx, i, q) if self.batched else q
    def U(self, i, q): return self.B(i, q) if self.partial else q
    def inbatch(self, i, j):
        if not self.batched: return True
        return self.k.occurs(self.b, lambda q: self.B(i, q), j)
    def updated(self, i, j):
        k = self.k
        if not self.batched or not self.partial: return self.A.has(i)
        return k.and_(self.A.has(i), self.inbatch(i, j))
    def xi(self, p, q, *l, s=0): return self.k.at(self.smp.samples[self.s0 + s], p, q, *l)
    def al(self, i): return self.k.at(self.alpha, i, 0)
    def step(self, modular=False):
        """one step; modular: without post_step, which is used through its contract (see C07 and C09: post_step_*)"""
        self.dyn.terminate()
        if modular and self.k.sym: self.dyn.pre_step(); self.dyn.inner_step()
        else: self.dyn.step()
        self.nodup()
    def nodup(self):
        """the concatenating variant may list a particle twice in one batch; those cases are left to C08"""
        k = self.k
        if self.batched and not k.sym: k.assume_forall((self.M,), lambda i: len({self.B(i, q) for q in range(int(self.b))}) == int(self.b))
    def act_now(self): self.dyn.terminate()
    # ---- specification of the consensus
    def F(self, i, j, X=None): return self.f.at(self.x if X is None else X, i, j)
    def gmean(self, i, l, E=None, X=None):
        """Gibbs-weighted mean over the batch of run i"""
        k = self.k
        if not k.sym and E is None and X is None:      # the value is used many times: evaluate it once
            key = (id(self.x), float(self.al(i)), tuple(int(self.B(i, q)) for q in range(int(self.nc))), int(i), tuple(int(m) for m in l))
            memo = self.__dict__.setdefault('_memo', {})
            if key not in memo: memo[key] = (self.x, self.gmean(i, l, None, self.x))
            return memo[key][1]
        X = self.x if X is None else X
        E = (lambda i, j: self.f.at(X, i, j)) if E is None else E
        if k.sym: sh = 0
        else:                       # the concrete specification is evaluated in a numerically stable way
            sh = min(float(E(i, self.B(i, q))) for q in range(int(self.nc)))
        w = lambda q: k.exp(-self.al(i) * (E(i, self.B(i, q)) - sh))
        return k.div(k.Sum((self.nc,), lambda q: w(q) * k.at(X, i, self.B(i, q), *l)), k.Sum((self.nc,), w))
    c = gmean
    def drift(self, i, j, l, c=None): return self.k.at(self.x, i, j, *l) - (self.c(i, l) if c is None else c)
    def dnorm2(self, g):
        return self.k.Sum(self.dd, lambda *l: g(l) * g(l))
    def frame(self, name, new, old, also=None):
        k = self.k
        k.forall(name, (self.M, self.N) + self.dd, lambda i, j, *l: k.implies(k.not_(self.updated(i, j)), k.eq(k.at(new, i, j, *l), k.at(old, i, j, *l))))
    def upd(self, name, f):
        """f(p, q, i, j, l): p-th active run i, q-th updated particle j"""
        k = self.k
        def g(p, q, *l):
            i = self.A.run(p)
            return f(p, q, i, self.U(i, q), l)
        k.forall(name, (self.K, self.nu) + self.dd, g)
    def noise(self, kind, p, q, l, dr, s=0):
        """dr(l): drift of the particle (a function of the coordinate)"""
        k = self.k
        sq = k.sqrt(self.dt)
        if kind == 'anisotropic': return sq * dr(l) * self.xi(p, q, *l, s=s)
        if kind == 'isotropic': return sq * k.sqrt(self.dnorm2(dr)) * self.xi(p, q, *l, s=s)
        if kind == 'constant': return sq * self.xi(p, q, *l, s=s)
        raise ValueError(kind)
    def corrfac(self, kind, e, fc):
        k = self.k
        if kind == 'no_correction': return 1
        if kind == 'heavi_side': return k.ite(k.lt(fc, e), 1, 0)
        return (1 + k.tanh((e - fc) / self.eps_c)) / 2
