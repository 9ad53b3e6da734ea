"""Registry of properties (filled by the modules under specs/)."""
import importlib
import json
import os
import sys
import mir

PROPS = {}
COMMON_ASSUMPTIONS = [
    'library functions without a checked contract follow the models in engine/models.py (listed in the evidence file)',
    'answers to external queries are arbitrary but the same for the same request within one call',
    'a panic or an error result reverts the whole transaction (CosmWasm semantics), so obligations concern returned Ok responses',
    'event attributes are not part of the specification',
    'vectors of symbolic length are explored for the lengths listed under "bounded"; everything else is unbounded',
]
TRUSTED = ['rustc nightly front end and MIR (monomorphised bodies as compiled)', 'engine/sym.py symbolic executor',
           'engine/models.py library contracts', 'engine/term.py polynomial normal form', 'z3 4.x']


class Prop:
    def __init__(self, pid):
        self.id = pid
        self.scenarios = []
        self.assumptions = []

    def add(self, *scs):
        self.scenarios += scs


FILES = {}


def load(pid):
    d = os.path.join(mir.VERIF, 'specs')
    for f in sorted(os.listdir(d)):
        if f.startswith('p_') and f.endswith('.py'):
            importlib.import_module(f[:-3])
    return PROPS[pid]


def prop(pid, *assumptions):
    p = PROPS.setdefault(pid, Prop(pid))
    p.assumptions += list(assumptions)
    return p


def known(pid):
    f = os.path.join(mir.VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return [x for x in json.load(open(f))['findings'] if x['property'] == pid]
