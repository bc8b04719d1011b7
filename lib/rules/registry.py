"""property id -> rule"""
import importlib, pkgutil, os
RULES = {}


def register(pid, run, scope, rule, explanation, level='other', assumptions=()):
    RULES[pid] = dict(run=run, scope=scope, rule=rule, explanation=explanation, level=level, assumptions=list(assumptions))


def _load():
    d = os.path.dirname(os.path.abspath(__file__))
    for m in sorted(os.listdir(d)):
        if m.startswith('c_') and m.endswith('.py'):
            importlib.import_module('rules.' + m[:-3])


_load()
