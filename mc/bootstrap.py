"""
Make the code of /repo importable under Jython, together with the stand-ins
for the third party libraries which are not installed (see env/).
"""
import os
import sys
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OQ_VERIF_REPO', '/repo')


def setup():
    sys.dont_write_bytecode = True
    env = os.path.join(VERIF, 'env')
    for path in (os.path.join(VERIF, 'mc'), REPO, env):
        if path in sys.path:
            sys.path.remove(path)
        sys.path.insert(0, path)
    pkg = types.ModuleType('openquake')
    pkg.__path__ = [os.path.join(REPO, 'openquake'),
                    os.path.join(env, 'openquake')]
    pkg.__file__ = os.path.join(REPO, 'openquake', '__init__.py')
    sys.modules['openquake'] = pkg
    sys.setrecursionlimit(3000)
    fix_zipfile()


def fix_zipfile():
    """
    Seeking before the beginning of a file is an IOError on CPython (zipfile
    relies on that to read an empty archive) and a Java exception on Jython
    """
    import zipfile
    from java.lang import IllegalArgumentException
    original = zipfile._EndRecData64

    def end_rec_data64(fpin, offset, endrec):
        try:
            return original(fpin, offset, endrec)
        except IllegalArgumentException:
            return endrec
    if original.__name__ != 'end_rec_data64':
        zipfile._EndRecData64 = end_rec_data64
