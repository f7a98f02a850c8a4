"""All checks by property id."""
import importlib

MODULES = ('checks_edge', 'checks_conv', 'checks_snap', 'checks_motif', 'checks_global', 'checks_more', 'checks_life', 'checks_form', 'checks_args')


def all_checks():
    out = {}
    for m in MODULES:
        try:
            mod = importlib.import_module('mon.' + m)
        except ModuleNotFoundError as e:
            if e.name != 'mon.' + m:
                raise
            continue
        for c in mod.CHECKS:
            out[c.pid] = c
    return out


def get(pid):
    return all_checks()[pid]()
