import importlib
import os
import re


def modules():
    """Module name -> the properties it declares (read from its text, so that only what is needed is imported)."""
    here = os.path.dirname(__file__)
    out = {}
    for f in sorted(os.listdir(here)):
        if f.endswith('.py') and not f.startswith('_'):
            with open(os.path.join(here, f)) as h:
                out[f[:-3]] = sorted(set(re.findall(r"@sub\('(C\d+)'", h.read())))
    return out


def load(prop):
    for name, props in modules().items():
        if prop in props:
            importlib.import_module('vp.props.' + name)
