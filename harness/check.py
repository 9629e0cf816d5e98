#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's tree."""
import argparse
import importlib
import os
import shutil
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib  # noqa: E402

MODULES = {
    'check_element': ['E01', 'E02', 'E03', 'E04'],
    'check_heap': ['E05'],
    'check_unmarshal': ['U01', 'U02', 'U03', 'U05', 'U06', 'U07', 'U08', 'U09'],
    'check_bind': ['U04'],
    'check_marshal': ['U10'],
    'check_history': ['U11'],
    'check_fresh': ['U13'],
    'check_registry': ['R01'],
    'check_names': ['R02'],
    'check_threads': ['U12'],
    'check_config': ['C03'],
    'check_run': ['C01', 'C02'],
    'check_cache': ['L01', 'L02', 'L03'],
    'check_doc': ['D01'],
    'check_describe': ['D02'],
    'check_text': ['T01', 'T02', 'T03', 'T04'],
}


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier')
    parser.add_argument('--seed', type=int)
    args = parser.parse_args()
    name = next(m for m, ids in MODULES.items() if args.property in ids)
    for attempt in (1, 2):
        chk = lib.Check(args.property, args.tier, args.seed)
        try:
            module = importlib.import_module(name)
            module.run(chk)
            return chk.finish()
        except lib.Inconclusive as err:
            # the machinery stumbled (a timeout, memory): once more, then give up loudly
            if chk.found:
                return chk.finish()
            traceback.print_exc()
            shutil.rmtree(chk.tmp, ignore_errors=True)
        except Exception:
            if chk.found:
                traceback.print_exc()
                return chk.finish()
            raise
    return 2


sys.exit(main())
