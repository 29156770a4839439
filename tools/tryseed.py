#!/usr/bin/env python3
"""tryseed.py [ID...]: is each planted bug caught by its property's check?

Runs the quick check against a scratch copy of /repo with the patch applied.
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    pid = json.load(open(d + '/meta.json'))['property']
    s = '/tmp/tryseed_' + pid
    os.makedirs(s, exist_ok=True)
    shutil.rmtree(s + '/repo', ignore_errors=True)
    shutil.copytree('/repo', s + '/repo', ignore=shutil.ignore_patterns('_build'))
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=s + '/repo', check=True)
    env = dict(os.environ, VERIF_REPO=s + '/repo', VERIF_BUILD=s + '/build', VERIF_EVIDENCE=s + '/ev')
    r = subprocess.run([sys.executable, V + '/lib/run.py', pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    subs = re.findall(r'replay=\S*/%s\.(\w+)\.replay' % pid, r.stdout)
    ls = r.stdout.splitlines()
    msg = next((ls[k - 1] for k, l in enumerate(ls) if l.startswith('  case:')), '')
    print('%-28s %s %s %s %s' % (i, pid, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR ' + r.stdout[-800:]), ','.join(subs), msg[:150]))
    sys.stdout.flush()
    rp = V + '/tools/seed_results.json'
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    res[i] = '`%s`' % ','.join(subs) if r.returncode == 1 else 'missed'
    json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
    if os.environ.get('KEEP') is None:
        shutil.rmtree(s)
