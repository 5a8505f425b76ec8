#!/usr/bin/env python3
"""run.py <PROPERTY> : runs the check of one property (tier from VERIF_TIER, seed from VERIF_SEED).
run.py --replay <file> : re-executes the scenario of a reported violation."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'     # the interpreter warcio is installed for
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.execv(PY, [PY] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
import core  # noqa


def load(pid, tier, seed):
    mod = importlib.import_module('checks.' + pid.lower())
    return mod.CHECK(tier, seed)


def main():
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    args = sys.argv[1:]
    if args[0] == '--replay':
        d = json.load(open(args[1]))
        chk = load(d['property'], tier, seed)
        s = d['scenario']
        chk.scenarios = lambda: [s]
        chk.replaying = True
        os.environ['VERIF_KEEP'] = '1'
        rc = chk.run()
        print('kept in', chk.tmp)
        return rc
    if '--thorough' in args:
        tier = 'thorough'
    return load(args[0], tier, seed).run()


if __name__ == '__main__':
    sys.exit(main())
