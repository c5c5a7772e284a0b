#!/opt/venv/bin/python
"""run.py CXX [quick|thorough] [--only REGEX]"""
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
PY = '/opt/venv/bin/python'
if sys.executable != PY and os.path.exists(PY) and not os.environ.get('VERIF_NOEXEC'):
    os.environ['VERIF_NOEXEC'] = '1'
    os.execv(PY, [PY] + sys.argv)
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'

if __name__ == '__main__':
    from engine import driver
    only = None
    a = sys.argv[1:]
    if a[:1] == ['--setup']:  # nothing to build: every check builds what it needs from the current sources
        from engine.core import z3
        print('z3', z3.get_version_string())
        sys.exit(0)
    if '--only' in a:
        i = a.index('--only')
        only = a[i + 1]
        del a[i:i + 2]
    try:
        rc = driver.main(a[0].upper(), a[1] if len(a) > 1 else None, only)
    except BaseException as e:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
