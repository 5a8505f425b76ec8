#!/usr/bin/env python3
"""Nothing is built: checks that the tools the checks use are there, and that every specification parses."""
import glob
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def sany(f):
    p = subprocess.run(['java', '-cp', JAR, 'tla2sany.SANY', os.path.basename(f)], cwd=SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return f, p.returncode, p.stdout


bad = 0
with ThreadPoolExecutor(4) as ex:
    for f, rc, out in ex.map(sany, sorted(glob.glob(os.path.join(SPEC, '*.tla')))):
        if rc or 'rror' in out:
            bad = 1
            print(f, rc, out[-2000:])
print('specifications parse' if not bad else 'FAILED')
sys.exit(bad)
