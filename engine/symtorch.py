"""Assumed contracts of the torch operations used by the code (tensors are the same symbolic arrays)."""
import types
from ir import *
import symnp, symrandom
from symnp import Arr, shape_t
from core import Sc, lift, wrap, wrapx

def _self(self, *a, **k): return self
for n in ('detach', 'double', 'contiguous', 'requires_grad_', 'float'): setattr(Arr, n, _self)
def _on(a, device):
    """the tensor on the given device (a copy when the device differs, the tensor itself otherwise)"""
    device = getattr(device, 'device', device)
    if not isinstance(device, str): return a
    device = device.split(':')[0]
    if device == a.device: return a
    r = a.copy(); r.device = device
    return r
Arr.to = lambda self, *a, device=None, **k: _on(self, device if device is not None else (a[0] if a else None))
Arr.cpu = lambda self: _on(self, 'cpu')
Arr.numpy = lambda self: self          # shares memory, as in torch
Arr.clone = lambda self: self.copy()
Arr.device = 'cpu'
def _view(self, *s): return self.reshape(*s)
def _numel(self):
    return self.size
Arr.numel = _numel
Arr.view = _view
def _uniform_(self, lo=0., hi=1.):
    self.set_all(symrandom.uniform(lo, hi, tuple(self.shape))); return self
Arr.uniform_ = _uniform_
class _no_grad:
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f): return f
def _size(size, *a):
    if a: return (size,) + a
    return size
def zeros(*s, size=None, device=None, **k): return _on(symnp.zeros(size if size is not None else (s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)), device)
def randn(*s, size=None, device=None, **k): return _on(symrandom.standard_normal(size if size is not None else (s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)), device)
def randint(lo, hi, size, **k):
    return symrandom.choice(list(range(lo, hi)), size)
def nan_to_num(x, nan=0.0, posinf=None, neginf=None): return symnp.nan_to_num(x, True, nan, posinf, neginf)
def clamp(x, min=None, max=None): return symnp.clip(x, min, max)
def logsumexp(a, dim=None, keepdim=False, keepdims=False, axis=None): return symnp.logsumexp(a, axis=dim if dim is not None else axis, keepdims=keepdim or keepdims)
def tsum(a, axis=None, dim=None, keepdim=False, keepdims=False): return symnp.reduce_sum(a, axis if dim is None else dim, keepdim or keepdims)
def norm(x, ord=None, dim=None, keepdim=False, keepdims=False, **k): return symnp.norm(x, ord, axis=dim, keepdims=keepdim or keepdims)
def vector_norm(x, ord=2, dim=None, keepdim=False, keepdims=False, **k):
    axs = symnp.norm_axes(symnp.asarray(x), dim)
    if len(axs) == 1: return symnp.norm(x, ord, axis=axs[0], keepdims=keepdim or keepdims)
    if ord != 2: raise Unsupported('vector_norm of order %r over several axes' % (ord,))
    x = symnp.asarray(x)
    return symnp.sqrt(tsum(x * x, dim=tuple(axs), keepdim=keepdim or keepdims))
def softmax(x, dim=None): return symnp.softmax(x, axis=dim)
def tmean(a, dim=None, axis=None, keepdim=False, keepdims=False): return symnp.mean(a, axis if dim is None else dim, keepdim or keepdims)
def amin(a, dim=None, keepdim=False, axis=None, keepdims=False): return symnp.amin(a, axis if dim is None else dim, keepdim or keepdims)
def amax(a, dim=None, keepdim=False, axis=None, keepdims=False): return symnp.amax(a, axis if dim is None else dim, keepdim or keepdims)
def argmin(a, dim=None, keepdim=False): return symnp.argmin(a, dim, keepdim)
def argmax(a, dim=None, keepdim=False): return symnp.argmax(a, dim, keepdim)
def tany(a, dim=None, keepdim=False): return symnp.any(a, dim, keepdim)
def tall(a, dim=None, keepdim=False): return symnp.asarray(a).all(dim, keepdim)
def tmax(a, dim=None, keepdim=False):
    if isinstance(dim, Arr): return symnp.maximum(a, dim)
    return a.max() if dim is None else a.max(dim=dim, keepdim=keepdim)
def tmin(a, dim=None, keepdim=False):
    if isinstance(dim, Arr): return symnp.minimum(a, dim)
    return a.min() if dim is None else a.min(dim=dim, keepdim=keepdim)
def full(size, v, device=None, **k): return _on(symnp.full(size, v), device)
def tstack(xs, dim=0, axis=None): return symnp.stack(xs, dim if axis is None else axis)
def randn_like(x, **k): return _on(symrandom.standard_normal(tuple(x.shape)), x.device)
for nm, f in dict(clamp=clamp, softmax=softmax, logsumexp=logsumexp, amin=amin, amax=amax, norm=lambda x, p=None, dim=None, keepdim=False, **k: norm(x, None if p == 2 else p, dim, keepdim),
                  unsqueeze=lambda x, dim: symnp.expand_dims(x, dim), nan_to_num=nan_to_num, tile=lambda x, *r: symnp.tile(x, r[0] if len(r) == 1 and isinstance(r[0], (tuple, list)) else r),
                  dim=lambda x: x.ndim, permute=lambda x, *a: symnp.transpose(x, a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a), t=lambda x: x.T,
                  abs=lambda x: abs(x), sqrt=symnp.sqrt, exp=symnp.exp, log=symnp.log, pow=lambda x, e: x ** e, square=symnp.square, sign=symnp.sign,
                  mul=lambda x, o: x * o, add=lambda x, o, alpha=1: x + (o if alpha == 1 else alpha * o), sub=lambda x, o, alpha=1: x - (o if alpha == 1 else alpha * o), div=lambda x, o: x / o,
                  mul_=lambda x, o: x.__imul__(o), add_=lambda x, o: x.__iadd__(o), sub_=lambda x, o: x.__isub__(o), div_=lambda x, o: x.__itruediv__(o), moveaxis=symnp.moveaxis, movedim=symnp.moveaxis,
                  copy_=lambda x, o: (x.set_all(o), x)[1], zero_=lambda x: (x.set_all(0.), x)[1], fill_=lambda x, v: (x.set_all(v), x)[1],
                  unbind=lambda x, dim=0: tuple(symnp.take(x, i, dim) for i in range(ir_const(x, dim))), bool=lambda x: x != 0).items():
    if nm not in vars(Arr): setattr(Arr, nm, symnp.strict_kwargs(f))
def ir_const(x, dim):
    n = const_ext(x.exts[dim % x.ndim])
    if n is None: raise Unsupported('unbind')
    return n
class Exponential:
    def __init__(self, r): self.r = r
    def sample(self, size): return symrandom.exponential(1.0 / self.r, size)
def missing(nm):
    def f(*a, **k): raise Unsupported('torch.' + nm)
    return f
# functional models: opaque in the parameters
def functional_call(model, pb, x): return model.functional(pb[0], x)
def stack_module_state(models): return models.stacked(), {}
def vmap(f, in_dims=0):
    def g(*a):
        mapped = [i for i, d in enumerate(in_dims) if d is not None]
        if any(in_dims[i] != 0 for i in mapped): raise Unsupported('vmap axis')
        e = symnp.asarray(a[mapped[0]]).exts[0]
        v = fresh('i', 'I', e)
        b = [symnp.asarray(x)[Sc(v)] if i in mapped else x for i, x in enumerate(a)]
        r = symnp.asarray(f(*b))
        return Arr.make((e,) + r.exts, lambda w: subst(r.at(w[1:]), {v: w[0]}), r.kind)
    return g
def modules():
    t = {n: getattr(symnp, n) for n in 'abs sqrt log sin cos tanh maximum minimum where einsum matmul arange eye stack ones_like zeros_like mean sign isnan isinf isfinite moveaxis square'.split()}
    t.update(softmax=softmax, mean=tmean, amin=amin, amax=amax, argmin=argmin, argmax=argmax, full=full, stack=tstack, randn_like=randn_like, concat=symnp.concatenate,
             unsqueeze=lambda x, dim: symnp.expand_dims(x, dim), squeeze=symnp.squeeze, reshape=symnp.reshape, permute=symnp.transpose, swapaxes=symnp.swapaxes, transpose=symnp.swapaxes,
             pow=lambda x, e: x ** e, mul=symnp.multiply, multiply=symnp.multiply, add=lambda x, o, alpha=1: x + alpha * o, sub=lambda x, o, alpha=1: x - alpha * o, subtract=symnp.subtract,
             div=symnp.true_divide, divide=symnp.true_divide, full_like=symnp.full_like, any=tany, all=tall, max=tmax, min=tmin, norm=lambda x, p=None, dim=None, keepdim=False, **k: norm(x, None if p == 2 else p, dim, keepdim),
             count_nonzero=lambda x, dim=None: symnp.count_nonzero(x, dim), tile=symnp.tile, bmm=symnp.matmul, numel=lambda x: x.size, is_tensor=lambda x: isinstance(x, Arr), hstack=symnp.hstack, vstack=symnp.vstack,
             exp=symnp.exp, sum=tsum, clone=symnp.copy, nan_to_num=nan_to_num, clamp=clamp, clip=clamp, logsumexp=logsumexp, concatenate=symnp.concatenate,
             cat=symnp.concatenate, zeros=zeros, randn=randn, randint=randint, no_grad=_no_grad, Tensor=Arr, tensor=lambda x, **k: symnp.array(x),
             as_tensor=lambda x, **k: symnp.asarray(x), from_numpy=lambda x: x, ones=lambda *s, **k: symnp.ones(s[0] if isinstance(s[0], (tuple, list)) else s),
             float32=float, float64=float, inf=float('inf'), pi=None,
             __getattr__=lambda nm: (_ for _ in ()).throw(Unsupported('torch.' + nm)) if not nm.startswith('__') else (_ for _ in ()).throw(AttributeError(nm)))
    return {'torch': t, 'torch.func': dict(functional_call=functional_call, stack_module_state=stack_module_state, vmap=vmap),
            'torch.linalg': dict(vector_norm=vector_norm, norm=norm),
            'torch.distributions': dict(Exponential=Exponential)}
