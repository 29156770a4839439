#!/usr/bin/env python3
"""mutate.py <PID> [name...]: sensitivity of a check to small edits.

mutants/<PID>.py holds MUTANTS = [(name, file, old, new), ...]; each edit is
applied to a scratch copy of /repo and the check is run against the copy.
A name starting with 'same' is an edit that keeps behaviour: the check must
stay quiet on it.
"""
import os
import re
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid = sys.argv[1]
only = sys.argv[2:]
ns = {}
exec(open('%s/mutants/%s.py' % (HERE, pid)).read(), ns)
scratch = '/tmp/mut_' + pid
shutil.rmtree(scratch + '/build', ignore_errors=True)  # edits are undone without a new mtime
os.makedirs(scratch, exist_ok=True)
copy = scratch + '/repo'
subprocess.run(['rsync', '-a', '--delete', '--exclude', '_build', '/repo/', copy + '/']
               if shutil.which('rsync') else
               ['cp', '-aT', '/repo', copy], check=True)
env = dict(os.environ, VERIF_REPO=copy, VERIF_BUILD=scratch + '/build',
           VERIF_EVIDENCE=scratch + '/ev')
bad = 0
for name, path, old, new in ns['MUTANTS']:
    if only and not any(o in name for o in only):
        continue
    p = os.path.join(copy, path)
    orig = open(p).read()
    if orig.count(old) < 1:
        print('%-40s EDIT DOES NOT APPLY' % name)
        bad += 1
        continue
    open(p, 'w').write(orig.replace(old, new, 1))
    r = subprocess.run([sys.executable, HERE + '/lib/run.py', pid], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    open(p, 'w').write(orig)
    subs = re.findall(r'replay=\S*/%s\.(\w+)\.replay' % pid, r.stdout)
    msg = ''
    if r.returncode == 1:
        ls = r.stdout.splitlines()
        for i, l in enumerate(ls):
            if l.startswith('  case:'):
                msg = ls[i - 1]
                break
    want = 0 if name.startswith('same') else 1
    ok = r.returncode == want
    bad += not ok
    print('%-40s %s %s %s' % (name, {0: 'quiet', 1: 'caught'}.get(
        r.returncode, 'ERROR\n' + r.stdout[-1500:]) + ('' if ok else ' <<<<<'), ','.join(subs), msg[:160]))
    sys.stdout.flush()
print('%d unexpected' % bad)
