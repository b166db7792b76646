"""Locating the harness of a configuration."""
import importlib
import os
import sys


def load(prop):
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if d not in sys.path:
        sys.path.insert(0, d)
    return importlib.import_module('checks.' + prop.lower())


def configs(mod, tier):
    cs = mod.configs(tier)
    out = []
    for c in cs:
        c = dict(c)
        impls = c.pop('impls', None) or (c.get('impl', 'py'),)
        for i in impls:
            d = dict(c)
            d['impl'] = i
            d['id'] = '%s/%s' % (d['name'], i)
            out.append(d)
    ids = [c['id'] for c in out]
    assert len(ids) == len(set(ids)), 'duplicate configuration'
    return out


def find(prop, tier, cid, impl=None):
    mod = load(prop)
    for c in configs(mod, tier):
        if c['id'] == cid:
            return c, getattr(mod, c['harness'])
    raise KeyError(cid)
