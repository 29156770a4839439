#!/usr/bin/env python3
"""automut.py [-n COUNT] [-s SEED] [-j JOBS] [-f FILE-SUBSTRING]...

Mechanical edits (a comparison, a constant, a condition, a deleted statement)
of randomly chosen lines under src/, each run against the checks that speak of
the file; prints the edits no check noticed.  Works on scratch copies.
"""
import argparse
import os
import random
import re
import shutil
import subprocess
import sys
import threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    ('common/circular_buffer', 'P01 P19 P20'),
    ('common/atomic_unique_ptr', 'P01'),
    ('common/spin_lock', 'P31'),
    ('common/flat_map', 'P12 P13'), ('common/function_ref', 'P12'),
    ('common/chained_stream', 'P02 P13 P37'),
    ('common/fragment', 'P03 P04'), ('common/composable', 'P03 P04'),
    ('common/in_memory', 'P03 P33'), ('common/buffer_chain', 'P02 P20 P13'),
    ('common/direct_coded', 'P34 P13'), ('common/serialization', 'P34 P14 P13'),
    ('common/report_request_framing', 'P34 P05'),
    ('common/chunked_http', 'P23 P07'),
    ('common/protobuf', 'P34 P05'),
    ('common/hex', 'P27 P17 P16'),
    ('common/timestamp', 'P08'), ('common/random', 'P09 P25 P37'),
    ('common/fast_random', 'P09'), ('common/logger', 'P29'),
    ('common/utility', 'P14 P13 P08 P09'),
    ('common/condition', 'P20'),
    ('common/platform/fork', 'P28 P09'), ('common/platform/error', 'P29 P11 P22'),
    ('common/platform/network', 'P11 P04 P22'), ('common/platform', 'P30 P22 P11'),
    ('network/ares', 'P36'), ('network/dns', 'P36 P25'),
    ('network/event', 'P32 P22'), ('network/timer', 'P32 P22'),
    ('network/ip_address', 'P10'), ('network/socket', 'P11 P22'),
    ('network/vector_write', 'P04'),
    ('recorder/auto_recorder', 'P20 P28 P06'),
    ('recorder/fork_aware', 'P28 P22'),
    ('recorder/legacy_manual', 'P21 P06'),
    ('recorder/manual_recorder', 'P19 P06 P37'),
    ('recorder/metrics', 'P06 P07 P22'), ('recorder/report_builder', 'P21 P20'),
    ('recorder/recorder.h', 'P19 P20 P22 P31'),
    ('recorder/transporter', 'P30 P19'),
    ('recorder/serialization', 'P05 P19 P34 P37'),
    ('recorder/stream_recorder/connection_stream', 'P35 P22'),
    ('recorder/stream_recorder/span_stream', 'P07 P35 P22'),
    ('recorder/stream_recorder/status_line', 'P24 P22'),
    ('recorder/stream_recorder/host_header', 'P35 P22'),
    ('recorder/stream_recorder/satellite_dns', 'P25 P22'),
    ('recorder/stream_recorder/satellite_endpoint', 'P25 P22'),
    ('recorder/stream_recorder/utility', 'P25 P22'),
    ('recorder/stream_recorder', 'P22 P25 P28 P35 P30 P37'),
    ('tracer/binary', 'P33'), ('tracer/json_options', 'P26'),
    ('tracer/lightstep_tracer_factory', 'P26 P30'),
    ('tracer/dynamic', 'P26'),
    ('tracer/baggage', 'P13 P18'), ('tracer/counting', 'P19 P20 P21'),
    ('tracer/immutable', 'P15 P18 P31'),
    ('tracer/lightstep_span_context', 'P15 P18'),
    ('tracer/legacy', 'P13 P18 P31 P15 P21 P37'),
    ('tracer/propagation', 'P15 P16 P17 P33 P37'),
    ('tracer/serialization', 'P13 P14 P34 P37'),
    ('tracer/span', 'P13 P18 P31 P37'),
    ('tracer/tag', 'P30 P13'),
    ('tracer/tracer.cpp', 'P30 P26'),
    ('tracer/tracer_impl', 'P13 P18 P15 P30 P31'),
    ('tracer/utility', 'P30 P26 P13 P18'),
    ('tracer', 'P30 P13'),
    ('common', 'P13'),
]


def checks_for(path):
    rel = path[len('src/'):]
    for pre, ids in MAP:
        if rel.startswith(pre):
            return ids.split()
    return []


def mutations(text):
    """(line number, new line, what)"""
    out = []
    lines = text.split('\n')
    depth = 0
    for i, l in enumerate(lines):
        st = l.strip()
        if (not st or st.startswith(('//', '#', '*', '/*', 'template',
                                     'namespace', 'using', 'static_assert',
                                     'typedef', 'friend', 'class', 'struct',
                                     'public', 'private', 'explicit'))):
            continue

        def sub(pat, rep, what):
            for m in re.finditer(pat, l):
                n = l[:m.start()] + m.expand(rep) + l[m.end():]
                if n != l:
                    out.append((i, n, what))
        sub(r' < (?!.*>)', ' <= ', '<')
        sub(r' <= ', ' < ', '<=')
        sub(r' > ', ' >= ', '>')
        sub(r' >= ', ' > ', '>=')
        sub(r' == ', ' != ', '==')
        sub(r' != ', ' == ', '!=')
        sub(r' && ', ' || ', '&&')
        sub(r' \|\| ', ' && ', '||')
        sub(r' \+ (?!")', ' - ', '+')
        sub(r' - ', ' + ', '-')
        sub(r'\+\+', '--', '++')
        sub(r'--', '++', '--')
        sub(r' \+= ', ' -= ', '+=')
        sub(r' -= ', ' += ', '-=')
        sub(r'\btrue\b', 'false', 'true')
        sub(r'\bfalse\b', 'true', 'false')
        for m in re.finditer(r'(?<![\w.])(\d+)(?=[,;) \]}]|$)', l):
            out.append((i, l[:m.start()] + str(int(m.group(1)) + 1) +
                        l[m.end():], 'const'))
        m = re.match(r'(\s*(?:\} else )?if \()(.*)(\) \{)$', l)
        if m:
            out.append((i, m.group(1) + 'false && (' + m.group(2) + ')' +
                        m.group(3), 'if false'))
            out.append((i, m.group(1) + 'true || (' + m.group(2) + ')' +
                        m.group(3), 'if true'))
        # delete a whole statement
        prev = lines[i - 1].strip() if i else ''
        if (st.endswith(';') and prev.endswith((';', '{', '}', ':')) and
                l.startswith('  ') and
                re.match(r'(return;|break;|continue;|[\w:>.\-*\[\]]+(\(| [-+|&]?= )'
                         r'|\+\+|--)', st) and
                not re.match(r'(return |throw |[\w:<>]+ [\w]+\(.*\) '
                             r'(const|noexcept|override))', st)):
            out.append((i, re.match(r'\s*', l).group(0) + ';', 'delete'))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=50)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-j', type=int, default=2)
    ap.add_argument('-f', action='append', default=[])
    ap.add_argument('-o', default='/tmp/automut.log')
    a = ap.parse_args()
    rng = random.Random(a.s)
    pool = {}
    for root, _, files in os.walk('/repo/src'):
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(root, f), '/repo')
            if ('windows' in rel or 'grpc' in rel or '/no_' in rel or
                    not f.endswith(('.h', '.cpp')) or 'version_check' in rel):
                continue
            if a.f and not any(x in rel for x in a.f):
                continue
            ms = mutations(open('/repo/' + rel).read())
            if ms and checks_for(rel):
                pool[rel] = ms
    # files weighted by the root of their mutation count
    work, seen = [], set()
    names = sorted(pool)
    w = [len(pool[n]) ** 0.7 for n in names]
    total = sum(len(v) for v in pool.values())
    while len(work) < min(a.n, total):
        n = rng.choices(names, w)[0]
        k = rng.randrange(len(pool[n]))
        if (n, k) in seen:
            continue
        seen.add((n, k))
        work.append((n, k))
    print('%d possible edits in %d files, %d chosen' % (total, len(names), len(work)))
    lock = threading.Lock()
    out = open(a.o, 'a')
    stat = {}

    def say(kind, text):
        with lock:
            stat[kind] = stat.get(kind, 0) + 1
            out.write(kind + ' ' + text + '\n')
            out.flush()

    def worker(w):
        base = '/tmp/automut_%d' % w
        copy = base + '/repo'
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        subprocess.run('cd /repo && tar cf - --exclude=./_build --exclude=./.git . '
                       '| (mkdir -p %s && cd %s && tar xf -)' % (copy, copy),
                       shell=True, check=True)
        # the generated header needs git for nothing but a version
        env = dict(os.environ, VERIF_REPO=copy, VERIF_BUILD=base + '/build',
                   VERIF_EVIDENCE=base + '/ev', VERIF_SHRINK='0')
        while True:
            with lock:
                if not work:
                    return
                n, k = work.pop(0)
            i, new, what = pool[n][k]
            p = os.path.join(copy, n)
            orig = open(p).read()
            lines = orig.split('\n')
            desc = '%s:%d [%s] %s  =>  %s' % (n, i + 1, what, lines[i].strip(),
                                              new.strip())
            lines[i] = new
            open(p, 'w').write('\n'.join(lines))
            result = None
            try:
                for scale in ('0.1', '1'):
                    for c in checks_for(n):
                        r = subprocess.run(
                            [sys.executable, HERE + '/lib/run.py', c],
                            env=dict(env, VERIF_SCALE=scale),
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            text=True, errors='replace', timeout=900)
                        if r.returncode == 1:
                            result = 'caught ' + c
                        elif r.returncode != 0:
                            result = ('nobuild' if 'error:' in r.stdout or
                                      'FAILED' in r.stdout else
                                      'ERROR %d %s' % (r.returncode,
                                                       r.stdout[-300:]))
                        if result:
                            break
                    if result:
                        break
            except subprocess.TimeoutExpired:
                result = 'timeout'
            open(p, 'w').write(orig)
            say((result or 'MISSED').split()[0], (result or '') + ' ' + desc)

    ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.j)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(stat)


main()
