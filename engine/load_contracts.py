import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'contracts'))
def load(prop):
    import api
    m = importlib.import_module(prop.lower())
    return api.REG.get(prop, [])
