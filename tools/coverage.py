#!/usr/bin/env python3
"""coverage.py [PID...]: lines and branches of /repo/src that no check reaches.

Builds every harness with source coverage, runs a few cases of each
sub-property and merges the profiles into /tmp/verif_cov/report.txt.
"""
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/verif_cov'
os.environ['VERIF_BUILD'] = W + '/build'
sys.path.insert(0, V + '/lib')
import checks  # noqa: E402
import vbuild  # noqa: E402
os.makedirs(W + '/prof', exist_ok=True)
exes = {}
for pid in sys.argv[1:] or sorted(checks.CHECKS):
    for part in checks.CHECKS[pid]['parts']:
        if part.get('config') == 'tsan' or part.get('suffix') == '_sched':
            continue
        exe = vbuild.build(part['harness'] + part.get('suffix', ''),
                           'harness/%s.cpp' % part['harness'], config='cov',
                           groups=part.get('groups'), tracer=part.get('tracer', True),
                           wrap=part.get('wrap', ()), extra_flags=part.get('flags', ()))
        exes[exe] = 1
        for name, quick, *_ in part['props']:
            env = dict(os.environ, LLVM_PROFILE_FILE='/dev/null', VERIF_PROFILES=W + '/prof')
            r = subprocess.run([exe, '--prop', name, '--id', pid, '--seed', '1', '--cases',
                                str(max(200, quick // 20)), '--workers', '4', '--seconds', '60',
                                '--replay-dir', W, '--out', W + '/o.json'],
                               env=env, cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            print(pid, name, r.returncode, r.stdout[-200:] if r.returncode else '')
            sys.stdout.flush()
    prof = [W + '/prof/' + f for f in os.listdir(W + '/prof') if f.endswith('.profraw')]
    open(W + '/list', 'w').write('\n'.join(prof + ([W + '/all.profdata'] if os.path.exists(W + '/all.profdata') else [])))
    subprocess.run(['llvm-profdata-18', 'merge', '-sparse', '-failure-mode=all', '-f', W + '/list', '-o', W + '/new.profdata'])
    os.replace(W + '/new.profdata', W + '/all.profdata')
    for f in prof:
        os.unlink(f)
objs = list(exes)[:1]
for e in list(exes)[1:]:
    objs += ['-object', e]
sources = ['-sources', '/repo/src', '/repo/3rd_party']
with open(W + '/report.txt', 'w') as f:
    subprocess.run(['llvm-cov-18', 'report', '-instr-profile', W + '/all.profdata'] + objs + sources, stdout=f)
with open(W + '/show.txt', 'w') as f:
    subprocess.run(['llvm-cov-18', 'show', '-show-branches=count', '-instr-profile', W + '/all.profdata'] + objs + sources, stdout=f)
