#!/usr/bin/env python3
"""
Run the checks on scratch copies of /repo with the planted bugs applied.
Usage: check_seeded.py [-a] [ID...] (-a: all the checks, not only the one of
the property)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def props():
    return [c['property'] for c in json.load(
        open(VERIF + '/MANIFEST.json'))['checks']]


def run(seeded, all_):
    d = os.path.join(VERIF, 'seeded', seeded)
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seeded-')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
        subprocess.check_call(['git', '-C', tmp + '/r', 'apply',
                               d + '/patch.diff'])
        caught = []
        for p in (props() if all_ else [prop]):
            r = subprocess.run([VERIF + '/check', p], env=dict(
                os.environ, OQ_VERIF_REPO=tmp + '/r'),
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode:
                caught.append(p)
        return seeded, prop, caught
    finally:
        shutil.rmtree(tmp)


def main(args):
    all_ = '-a' in args
    ids = [a for a in args if a != '-a'] or sorted(
        os.listdir(VERIF + '/seeded'))
    with ThreadPoolExecutor(3) as pool:
        for seeded, prop, caught in pool.map(lambda i: run(i, all_), ids):
            print(seeded, prop, 'caught by ' + ' '.join(caught)
                  if caught else 'MISSED', flush=True)


main(sys.argv[1:])
