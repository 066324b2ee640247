"""
Run the unit tests of /repo under the stand-ins of env/: this is how the
stand-ins are validated (the tests cannot run otherwise in this sandbox).

$ jython tools/repo_tests.py [nose args]
"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'mc'))
sys.path.insert(0, '/opt/jylib')
import bootstrap
bootstrap.setup()
os.chdir(bootstrap.REPO)
import unittest
mods = sys.argv[1:] or [f[:-3] for f in sorted(os.listdir('openquake/commonlib/tests')) if f.endswith('_test.py')]
suite = unittest.TestSuite()
import traceback
for m in mods:
    try:
        name = 'openquake.commonlib.tests.' + m
        mod = __import__(name, fromlist=['x'])
    except Exception:
        traceback.print_exc()
        continue
    suite.addTests(unittest.defaultTestLoader.loadTestsFromModule(mod))
    # nose style functions
    for n in sorted(vars(mod)):
        f = getattr(mod, n)
        if n.startswith('test') and callable(f) and getattr(f, '__module__', '') == mod.__name__:
            suite.addTest(unittest.FunctionTestCase(f))
unittest.TextTestRunner(verbosity=1).run(suite)
