#!/usr/bin/env python3
"""
Record a planted bug. Usage: seed.py ID PROPERTY NEEDS BREAKS DEMO.py, with
the changed code in the scratch copy /tmp/w of /repo. The demonstration is
run on /repo and on the scratch copy before keeping the change.
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the root of the repository
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 REPO=$repo
unset JYTHONPATH
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd "$tmp"
java -Xmx1500m -Xss16m -XX:+UseSerialGC -Djava.io.tmpdir="$tmp" \\
    -Dpython.home=/usr/share/jython -Dpython.cachedir.skip=true \\
    -jar /usr/share/java/jython.jar -B "$here/demo.py"
'''
BOOT = '''import os, sys, types
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ['REPO']
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, 'stubs'), REPO]
pkg = types.ModuleType('openquake')
pkg.__path__ = [os.path.join(REPO, 'openquake'),
                os.path.join(HERE, 'stubs', 'openquake')]
sys.modules['openquake'] = pkg
'''


def main(id, prop, needs, breaks, demo):
    d = os.path.join(VERIF, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(['git', '-C', '/tmp/w', 'add', '-A'])
    diff = subprocess.check_output(['git', '-C', '/tmp/w', 'diff', '--cached'])
    assert diff
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    open(d + '/boot.py', 'w').write(BOOT)
    shutil.copy(demo, d + '/demo.py')
    shutil.copytree(VERIF + '/env', d + '/stubs', ignore=shutil.ignore_patterns(
        '*.class', '*.pyc', '__pycache__'))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(d + '/meta.json', 'w'), indent=1)
    for where, want in (('/repo', 0), ('/tmp/w', 1)):
        r = subprocess.run(['bash', d + '/demo.sh'], cwd=where,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(where, r.returncode, r.stdout.decode()[-300:])
        if (r.returncode != 0) != want or b'ImportError' in r.stdout:
            shutil.rmtree(d)
            sys.exit('BAD DEMO')
    env = dict(os.environ, OQ_VERIF_REPO='/tmp/w')
    if os.path.exists(VERIF + '/mc/props/%s.py' % prop):
        r = subprocess.run([VERIF + '/check', prop], env=env, cwd=VERIF,
                           stdout=subprocess.PIPE)
        print('CAUGHT' if r.returncode == 1 else 'MISSED %d' % r.returncode,
              r.stdout.decode()[-500:])


main(*sys.argv[1:])
