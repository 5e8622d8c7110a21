"""Registry of the properties and the rule that decides each (texts in meta.py)."""
import importlib

import meta

ASSUMPTIONS = [
    'clang 18 parses the sources as the project build does (C++17, POSIX branches); Fast DDS is replaced by declarations with its public signatures',
    'the standard library behaves as modelled in engine/stdmodel.py (mutexes, condition variables, atomics, smart pointers, containers)',
    'allocation failure and exceptions thrown by standard containers are not modelled; user callbacks and opaque calls are assumed to return',
]

MODULES = {'G': 'p_log', 'W': 'p_wait', 'E': 'p_event', 'L': 'p_lock', 'M': 'p_mem', 'P': 'p_py', 'B': 'p_types', 'S': 'p_types', 'C': 'p_code', 'X': 'p_code', 'D': 'p_db', 'Q': 'p_db', 'T': 'p_db', 'H': 'p_db', 'U': 'p_ui', 'V': 'p_init'}
RULES = {}


OVERRIDE = {'X02': 'p_conf', "E05": "p_event2", "E06": "p_event2", "E07": "p_event2", "E08": "p_ui", "E09": "p_event2"}


def _mk(pid):
    mod = OVERRIDE.get(pid) or MODULES.get(pid[0], "p_misc")

    def fn(ctx):
        return getattr(importlib.import_module(mod), pid)(ctx)
    return fn


for _pid, _m in meta.P.items():
    if not _m.get('na'):
        RULES[_pid] = dict(fn=_mk(_pid), how=_m['how'], rule=_m['rule'], cpp=_pid[0] != 'P', assume=[_m['note']])


def selftest(pid, ctx):
    m = importlib.import_module('selftests')
    return m.run(pid, ctx)
