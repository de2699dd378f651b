"""Run the stable tests of a scratch copy (argv[1]/repo); print the ones that fail."""
import glob
import json
import os
import subprocess
import sys
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

w = sys.argv[1]
repo = os.path.join(w, 'repo')
base = json.load(open('/opt/vp/BASELINE.json'))


def run(entry):
    name = os.path.basename(entry).replace('.py', '')
    cwd = os.path.join(w, 't', name)
    os.makedirs(cwd)
    os.symlink(os.path.join(repo, 'test'), os.path.join(cwd, 'test'))
    out = os.path.join(w, 't', name + '.xml')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                    '--rootdir=' + repo, '--timeout=300', '-W', 'ignore', '--randomly-seed=1',
                    '--randomly-dont-reorganize', '-o', 'junit_family=xunit2',
                    '--junitxml=' + out, entry], cwd=cwd, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONPATH=repo))
    return out


entries = []
for t in sorted(glob.glob(os.path.join(repo, 'test', '*'))):
    if os.path.isdir(t) and not t.endswith('__pycache__'):
        entries += sorted(glob.glob(os.path.join(t, 'test_*.py')))
    elif os.path.basename(t).startswith('test_') and t.endswith('.py'):
        entries.append(t)
ok = set()
with ThreadPoolExecutor(6) as ex:
    for out in ex.map(run, entries):
        for tc in ET.parse(out).getroot().iter('testcase'):
            if not any(c.tag in ('failure', 'error', 'skipped') for c in tc):
                ok.add('%s::%s' % (tc.get('classname'), tc.get('name')))
missing = [t for t in base['stable'] if t not in ok]
if missing:
    print(len(missing), missing[:5])
