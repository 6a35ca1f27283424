#!/opt/venv/bin/python
"""check.py <property>: decide one property on /repo's current tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core

CHECKS = {
    'C01': ('cfg', 'check_delta'), 'C02': ('cfg', 'check_delta'),
    'C03': ('cfg', 'check_apply'), 'C04': ('cfg', 'check_cmp'),
    'C05': ('cfg', 'check_delta'), 'C06': ('cfg', 'check_prefs'),
    'C07': ('cfg', 'check_session'), 'C08': ('cfg', 'check_merge'), 'C09': ('cfg', 'check_norm'), 'C10': ('cfg', 'check_valid'),
    'C11': ('cfg', 'check_form'), 'C12': ('cfg', 'check_ident'), 'C13': ('cfg', 'check_filter'),
    'C14': ('cfg', 'check_extract'),
    'C15': ('addr', 'check_addr'),
    'C16': ('dev', 'check_ask'), 'C17': ('dev', 'check_two'), 'C27': ('dev', 'check_find'), 'C28': ('models', 'check_defaults'),
    'C18': ('models', 'check_diff'), 'C19': ('models', 'check_compile'),
    'C20': ('store', 'check_download'), 'C21': ('store', 'check_crash'), 'C22': ('store', 'check_broken'),
    'C29': ('odd', 'check'),
    'C23': ('run', 'check_diff'), 'C24': ('run', 'check_diff'), 'C25': ('run', 'check_cli'), 'C26': ('run', 'check_read'),
}

if __name__ == '__main__':
    prop = sys.argv[1]
    mod, fn = CHECKS[prop]

    def go(ctx):
        import importlib
        getattr(importlib.import_module('vp.' + mod), fn)(ctx)
    core.main(prop, go)
