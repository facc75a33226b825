"""Contract registry shared by the symbolic prover and the concrete (replay / bounded) runner."""
import itertools
REG = {}       # property -> list of Contract
class Contract:
    def __init__(self, prop, fn, configs, modes, thorough, timeout, weight):
        self.prop, self.fn, self.configs, self.modes, self.thorough = prop, fn, configs, modes, thorough
        self.name = fn.__name__
        self.timeout, self.weight = timeout, weight
    def label(self, i):
        c = self.configs[i]
        return self.name + ('[' + ','.join('%s=%s' % (k, v) for k, v in c.items()) + ']' if c else '')
def contract(prop, configs=None, modes='both', thorough=False, timeout=None, weight=1):
    """register a scenario: requires (assumptions made through the kit), call of the real code, ensures (k.check...)"""
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            REG.setdefault(p, []).append(Contract(p, fn, configs or [{}], modes, thorough, timeout, weight))
        return fn
    return deco
def grid(**kw):
    ks = list(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*[kw[k] for k in ks])]
class Discard(Exception):
    """the sampled input violates a precondition"""
class Violated(Exception): pass
