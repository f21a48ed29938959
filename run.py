#!/opt/venv/bin/python
"""run.py CNN [--tier quick|thorough] [--seed N] [--replay FILE] [--one SEED]"""
import os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
ENV = {'PYTHONHASHSEED': os.environ.get('VERIF_HASHSEED', '0'), 'PYTHONDONTWRITEBYTECODE': '1', 'TZ': 'UTC',
       'SIPLOG_BEND': 'none', 'LC_ALL': 'C.UTF-8'}
PY = '/opt/venv/bin/python'
if os.environ.get('VERIF_EXEC') != '1':
    e = dict(os.environ)
    e.update(ENV)
    e['VERIF_EXEC'] = '1'
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], e)
# the marker must not reach processes started from here
os.environ.pop('VERIF_EXEC', None)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import runner
rc = runner.main(sys.argv[1:])
sys.stdout.flush()
os._exit(rc)
