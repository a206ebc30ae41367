"""Makes `hypothesis` importable, offline, from the wheels in the image.

The interpreter that has lambeq's dependencies has no hypothesis; the
wheels in /opt/veriftools/wheels do.  They are unpacked once beside the
framework (git-ignored), or in a temporary folder if that fails.
"""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHEELS = '/opt/veriftools/wheels'
WANTED = ['hypothesis-*-cp312-cp312-*.whl', 'hypothesis-*-py3-none-any.whl',
          'sortedcontainers-*.whl']


def _unpack(target):
    tmp = tempfile.mkdtemp(prefix='.deps-', dir=os.path.dirname(target))
    try:
        got = 0
        for pattern in WANTED:
            if pattern.startswith('hypothesis') and got:
                continue
            for whl in sorted(glob.glob(os.path.join(WHEELS, pattern)))[-1:]:
                with zipfile.ZipFile(whl) as z:
                    z.extractall(tmp)
                got += 1
        if got < 2:
            raise RuntimeError('no hypothesis wheel found in ' + WHEELS)
        try:
            os.rename(tmp, target)
        except OSError:
            if not os.path.isdir(target):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def ensure():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    target = os.path.join(HERE, '.deps')
    if not os.path.isdir(os.path.join(target, 'hypothesis')):
        try:
            _unpack(target)
        except OSError:
            target = os.path.join(tempfile.gettempdir(),
                                  f'lbverif-deps-{os.getuid()}')
            if not os.path.isdir(os.path.join(target, 'hypothesis')):
                _unpack(target)
    sys.path.append(target)
    import hypothesis  # noqa: F401
