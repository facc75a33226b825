from api import contract, grid
from common import *

def archs(k):
    a, b, c, h = k.dim('da', hi=3), k.dim('db', hi=3), k.dim('dc', hi=3), k.dim('dh', hi=4)
    return {'single': [('w', (a,))], 'scalar': [('s', ())], 'matrix': [('w', (a, b))], 'layer': [('weight', (h, a)), ('bias', (h,))],
            'tensor': [('kernel', (a, b, c)), ('s', ()), ('bias', (a,))],
            'network': [('l1.weight', (h, a)), ('l1.bias', (h,)), ('l2.weight', (b, h)), ('l2.bias', (b,))]}
ARCH = ['single', 'scalar', 'matrix', 'layer', 'tensor', 'network']

def orders(shapes, order):
    names = [q for q, s in shapes]
    return {'default': names, 'given': names, 'reversed': names[::-1], 'rotated': names[1:] + names[:1]}[order]

def size(s):
    n = 1
    for e in s: n = n * e
    return n
def flat(s, i):
    """position of the entry i in the flattened parameter (C order)"""
    p = 0
    for e, j in zip(s, i): p = p * e + j
    return p

@contract('C31', [dict(arch=a, order=o) for a in ARCH for o in ('default', 'given', 'reversed', 'rotated') if not (o in ('reversed', 'rotated') and a in ('single', 'scalar', 'matrix')) and not (o == 'rotated' and a == 'layer')])
def round_trip(k, arch, order):
    """recorded shapes and offsets; viewing the flat vector through them gives back every parameter of every model"""
    T = k.mod('cbx.utils.torch_utils')
    shapes = archs(k)[arch]; sh = dict(shapes)
    n = k.dim('n', hi=3)
    m = k.models(n, shapes)
    names = orders(shapes, order)
    pp = T.get_param_properties(m.arg) if order == 'default' else T.get_param_properties(m.arg, pnames=names)
    k.check('parameters in the given order', list(pp.keys()) == names)
    end = 0
    for q in names:
        s, a, b = pp[q]
        k.check('rank of ' + q, len(s) == len(sh[q]))
        for e, f in zip(s, sh[q]): k.check('shape of ' + q, k.ieq(e, f))
        k.check('start of ' + q, k.ieq(a, end))
        end = end + size(sh[q])
        k.check('end of ' + q, k.ieq(b, end))
    w = T.flatten_parameters(m.arg, list(pp.keys()))
    k.check_shape('flat ensemble', w, (n, end))
    w0 = k.snap(w)
    for q in names:
        s, a, b = pp[q]
        k.forall('entries of ' + q, (n,) + sh[q], lambda i, *v: k.eq(k.at(w0, i, a + flat(sh[q], v)), m.own(q, i, *v)))
        view = w[:, a:b].view((n,) + tuple(s))
        k.check_shape('view of ' + q, view, (n,) + sh[q])
        k.forall('parameter ' + q, (n,) + sh[q], lambda i, *v: k.eq(k.at(view, i, *v), m.own(q, i, *v)))

@contract('C31', [dict(arch=a, order=o, what=w) for a in ARCH for o in ('default', 'reversed') for w in ('one', 'ensemble') if not (o == 'reversed' and a in ('single', 'scalar', 'matrix'))])
def evaluation(k, arch, order, what):
    """evaluating with flat weights is evaluating the model with these parameters, model by model"""
    T = k.mod('cbx.utils.torch_utils')
    shapes = archs(k)[arch]; sh = dict(shapes)
    o = k.dim('out', hi=3)
    m = k.models(None, shapes, out=o)
    names = orders(shapes, order)
    stack = k.models(k.dim('n', hi=3), shapes, own='stack')
    pp = T.get_param_properties(stack.arg) if order == 'default' else T.get_param_properties(stack.arg, pnames=names)
    D = 0
    for q in names: D = D + size(sh[q])
    B, dx = k.dim('B', hi=4), k.dim('dx', hi=3)
    X = k.array('X', (B, dx))
    start, off = {}, 0
    for q in names: start[q] = off; off = off + size(sh[q])
    def params(W): return {q: (lambda *v, q=q: W(start[q] + flat(sh[q], v))) for q in names}
    if what == 'one':
        W = k.array('W', (D,)); w = k.tensor(W)
        r = T.eval_model(k.tensor(X), m.arg, w, pp)
        k.check_shape('shape', r, (B, o)); r = k.snap(r)
        k.forall('value', (B, o), lambda b, c: k.eq(k.at(r, b, c), m.value(params(lambda t: k.at(W, t)), X, b, c)))
    else:
        N = k.dim('N', hi=4)
        W = k.array('W', (N, D)); w = k.tensor(W)
        r = T.eval_models(k.tensor(X), m.arg, w, pp)
        k.check_shape('shape', r, (N, B, o)); r = k.snap(r)
        k.forall('value', (N, B, o), lambda i, b, c: k.eq(k.at(r, i, b, c), m.value(params(lambda t: k.at(W, i, t)), X, b, c)))
    for q in names:     # the model keeps its own parameters
        if not k.sym:
            for i in __import__('itertools').product(*[range(int(e)) for e in sh[q]]):
                p = dict(m.arg.named_parameters())[q]
                k.check('model unchanged', p.detach().numpy()[i].item() == m.own(q, *i))

@contract('C31', [dict(arch=a, what=w) for a in ('matrix', 'layer', 'network') for w in ('one', 'ensemble')])
def losses(k, arch, what):
    """losses of the models with the flat weights"""
    T = k.mod('cbx.utils.torch_utils')
    shapes = archs(k)[arch]; sh = dict(shapes); o = k.dim('out', hi=3)
    m = k.models(None, shapes, out=o)
    names = [q for q, s in shapes]
    pp = T.get_param_properties(k.models(k.dim('n', hi=3), shapes, own='stack').arg)
    start, off = {}, 0
    for q in names: start[q] = off; off = off + size(sh[q])
    B, dx, N = k.dim('B', hi=4), k.dim('dx', hi=3), k.dim('N', hi=4)
    X, Y, W = k.array('X', (B, dx)), k.array('Y', (B, o)), k.array('W', (N, off))
    fct = lambda out, y: ((out - 2 * y) * (out - y)).sum()         # not symmetric in its arguments
    def params(i): return {q: (lambda *v, q=q: k.at(W, i, start[q] + flat(sh[q], v))) for q in names}
    spec = lambda i: k.Sum((B, o), lambda b, c: (m.value(params(i), X, b, c) - 2 * k.at(Y, b, c)) * (m.value(params(i), X, b, c) - k.at(Y, b, c)))
    if what == 'one':
        i = k.index(N)
        r = T.eval_loss(k.tensor(X), k.tensor(Y), fct, m.arg, k.tensor(W)[i], pp)
        k.check('loss', k.eq(r if k.sym else float(r), spec(i)))
    else:
        r = T.eval_losses(k.tensor(X), k.tensor(Y), fct, m.arg, k.tensor(W), pp)
        k.check_shape('shape', r, (N,)); r = k.snap(r)
        k.forall('losses', (N,), lambda i: k.eq(k.at(r, i), spec(i)))

@contract('C31', grid(arch=['layer', 'network'], batches=[1, 3]))
def accuracy(k, arch, batches):
    """fraction of the samples of all batches whose largest output is the label"""
    T = k.mod('cbx.utils.torch_utils')
    shapes = archs(k)[arch]; sh = dict(shapes); o = k.dim('out', hi=3)
    m = k.models(None, shapes, out=o)
    names = [q for q, s in shapes]
    pp = T.get_param_properties(k.models(k.dim('n', hi=3), shapes, own='stack').arg)
    start, off = {}, 0
    for q in names: start[q] = off; off = off + size(sh[q])
    W = k.array('W', (off,)); dx = k.dim('dx', hi=3)
    params = {q: (lambda *v, q=q: k.at(W, start[q] + flat(sh[q], v))) for q in names}
    data = []
    for t in range(batches):
        B = k.dim('B%d' % t, hi=4)
        Xt = k.array('X%d' % t, (B, dx))
        Yt = k.array('Y%d' % t, (B,), kind='i')
        if not k.sym: Yt %= int(o)
        data.append((B, Xt, Yt))
    r = T.eval_acc(m.arg, k.tensor(W), pp, [(k.tensor(x), k.tensor(y)) for _, x, y in data])
    n = right = 0
    for B, Xt, Yt in data:
        n = n + B
        right = right + k.Sum((B,), lambda b: k.ite(k.ieq(k.Argmin(o, lambda c, b=b: -m.value(params, Xt, b, c)), k.at(Yt, b)), 1, 0))
    k.check('accuracy', k.eq(r if k.sym else float(r), k.div(right, n)) if k.sym else abs(float(r) - right / n) < 1e-6)
