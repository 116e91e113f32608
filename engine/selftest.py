"""python3-vt -m engine.selftest CXX ...: checks with the audit of the engine (see audit.py)."""
import os
import runpy
import sys

sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
os.environ.setdefault('VERIF_AUDIT', '0.2')
from engine import audit
audit.install()
sys.argv = ['run.py'] + sys.argv[1:]
runpy.run_path(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'run.py'), run_name='__main__')
