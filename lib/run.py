#!/usr/bin/env python3
"""run.py <property> [quick|thorough]      decide one property
run.py <property> --replay <file>          re-run one saved case
"""
import json
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402
import vbuild  # noqa: E402

VERIF = vbuild.VERIF
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
# for the tools that measure the checks
SCALE = float(os.environ.get('VERIF_SCALE') or 1)
SHRINK = os.environ.get('VERIF_SHRINK')
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'
                    ':detect_stack_use_after_return=0:handle_segv=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_thread_leaks=0:'
                    'second_deadlock_stack=1:suppressions='
                    + VERIF + '/lib/tsan.supp',
}


def build(pid, part):
    name = part['harness']
    return vbuild.build(
        name + part.get('suffix', ''), 'harness/%s.cpp' % name,
        config=part.get('config', 'asan'), groups=part.get('groups'),
        tracer=part.get('tracer', True), wrap=part.get('wrap', ()),
        extra_libs=part.get('libs', ()), extra_flags=part.get('flags', ()))


def known(pid):
    fixed, findings = [], []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                findings.append(line[len('finding: '):])
    return findings


def main():
    pid = sys.argv[1]
    spec = checks.CHECKS[pid]
    env = dict(os.environ, **SAN_ENV)
    if spec.get('locales'):
        env['LOCPATH'] = vbuild.locales()
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        path = os.path.abspath(sys.argv[3])
        sub = None
        for line in open(path):
            if line.startswith('# sub-property: '):
                sub = line.split(': ', 1)[1].strip()
        for part in spec['parts']:
            if sub in [p[0] for p in part['props']]:
                exe = build(pid, part)
                scratch = os.path.join(vbuild.BUILD, 'out')
                os.makedirs(scratch, exist_ok=True)
                return subprocess.run(
                    [exe, '--prop', sub, '--id', pid, '--replay-dir', scratch,
                     '--replay', path], env=env, cwd=scratch).returncode
        print('no sub-property', sub)
        return 3
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get('VERIF_SEED') or '1')
    except ValueError:
        seed = 1
    t0 = time.time()
    out_dir = os.path.join(vbuild.BUILD, 'out')
    rep_dir = os.path.join(vbuild.BUILD, 'replay')
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(rep_dir, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)

    results, violations, replays = [], [], 0
    build_s = 0.0
    skipped = []
    for part in spec['parts']:
        b0 = time.time()
        try:
            exe = build(pid, part)
        except SystemExit:
            if not part.get('optional'):
                raise
            # The instrumented build of this part needs std::atomic to be used
            # in the ordinary way; the other parts still decide the property.
            print('%s: instrumented part does not build, skipped' % pid)
            skipped.append(part['harness'] + part.get('suffix', ''))
            continue
        build_s += time.time() - b0
        # saved cases first
        rdir = os.path.join(VERIF, 'regress', pid)
        names = [p[0] for p in part['props']]
        if os.path.isdir(rdir):
            for f in sorted(os.listdir(rdir)):
                sub = f.split('.')[0]
                if sub not in names:
                    continue
                path = os.path.join(rdir, f)
                replays += 1
                fails, last = 0, ''
                for _ in range(3):
                    r = subprocess.run(
                        [exe, '--prop', sub, '--id', pid, '--replay-dir',
                         out_dir, '--replay', path], env=env, cwd=out_dir,
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                        text=True, errors='replace')
                    if r.returncode == 0:
                        break
                    fails += 1
                    last = r.stdout
                if fails == 3:
                    violations.append((sub, path, last[-1500:]))
        for name, quick, thorough, *own in part['props']:
            cases = quick if tier == 'quick' else thorough
            cases = max(1, int(cases * SCALE))
            workers = own[0] if own else part.get('workers', 8)
            res_path = os.path.join(out_dir, '%s.%s.json' % (pid, name))
            if os.path.exists(res_path):
                os.unlink(res_path)
            # the whole check stays below the time it is given
            left = (450 if tier == 'quick' else 720) - (time.time() - t0)
            limit = max(5, min(150 if tier == 'quick' else 720, int(left)))
            r = subprocess.run(
                [exe, '--prop', name, '--id', pid, '--seed', str(seed),
                 '--cases', str(cases), '--workers', str(workers),
                 '--seconds', str(limit), '--replay-dir', rep_dir,
                 '--shrink-seconds', SHRINK or (
                     '25' if tier == 'quick' else '120'),
                 '--out', res_path], env=env, cwd=out_dir,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                errors='replace')
            if not os.path.exists(res_path):
                sys.stdout.write(r.stdout[-4000:])
                print('harness error in', name, r.returncode)
                return 3
            res = json.load(open(res_path))
            res['config'] = part.get('config', 'asan')
            results.append(res)
            print('%s %s: %d cases (%d distinct non-trivial) in %.1fs%s%s' % (
                pid, name, res['evaluations'], res['distinct_nontrivial'],
                res['wall'],
                ', stopped by the time limit' if res['timed_out'] else '',
                ', %d unconfirmed' % res['unconfirmed']
                if res['unconfirmed'] else ''))
            if res['violation']:
                violations.append((name, res['replay'],
                                   res['message'] + '\n  case: '
                                   + res['case'][:1500]))
            sys.stdout.flush()
        if violations:
            break

    samples = []
    for r in results:
        for s in r['samples'][:3]:
            samples.append('%s: %s' % (r['prop'], s[:700]))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': sum(r['distinct_nontrivial']
                                       for r in results),
            'rule': spec['rule'],
            'samples': samples[:14],
            'saved_cases_replayed': replays,
            'parts': [{k: r[k] for k in (
                'prop', 'config', 'evaluations', 'planned', 'nontrivial',
                'distinct_nontrivial', 'excluded', 'timed_out', 'unconfirmed',
                'unconfirmed_text', 'classes', 'wall')} for r in results],
            'build_s': round(build_s, 1),
            'parts_skipped': skipped,
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for line in known(pid):
        print('KNOWN-FINDING: ' + line)
    if violations:
        for sub, path, msg in violations:
            print('%s: %s' % (sub, msg))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
