#!/opt/venv/bin/python
"""For every repaired defect: revert its commit in a scratch clone; the property's check must report it again."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = set(sys.argv[1:])
tmp = tempfile.mkdtemp(prefix='reverts')
try:
    tree = tmp + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
    for line in open(HERE + '/KNOWN_FINDINGS.txt'):
        m = re.match(r'fixed: property=(\w+) (\w+) (.*)', line)
        if not m or (only and not only & {m[1], m[2]}):
            continue
        prop, commit, what = m.groups()
        git = ['git', '-C', tree, '-c', 'user.name=x', '-c', 'user.email=x@x']
        subprocess.run(git + ['reset', '-q', '--hard', 'origin/HEAD'], check=True)
        r = subprocess.run(git + ['revert', '--no-commit', commit], capture_output=True, text=True)
        if r.returncode:
            print('%s %s CONFLICT (%s)' % (prop, commit, what), flush=True)
            subprocess.run(git + ['revert', '--abort'], capture_output=True)
            continue
        r = subprocess.run([sys.executable, HERE + '/check.py', prop, '--keep', '--minimise', '0'], cwd=HERE,
                           env=dict(os.environ, DST_REPO=tree), capture_output=True, text=True)
        out = r.stdout.strip().split('\n')
        print('%s %s exit=%d %s | %s' % (prop, commit, r.returncode, out[0][:150], what), flush=True)
finally:
    shutil.rmtree(tmp)
