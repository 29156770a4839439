#!/usr/bin/env python3
"""mkseed.py: (re)writes seeded/<id>/ from the table in tools/seeds.py.

Each entry: id, property, edits [(file, old, new)], needs, what it breaks, and
the text of demo.cpp. kind 'scope' links the demo against what build.sh built;
kind 'tracer' compiles the sources that need OpenTracing with the stand-in in
shim/ (copied beside the demo).
"""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
for f in sorted(os.listdir(V + '/tools')):
    if f.startswith('seeds') and f.endswith('.py'):
        exec(open(V + '/tools/' + f).read(), ns)

SCOPE = '''#!/bin/bash
# Runs in the repository after the build: 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
B=$PWD/_build
g++ -std=c++11 -g -w -pthread -I"$B/headers/include" -Iinclude -Isrc \\
  -I"$B/generated" -I"$B/generated/lightstep-tracer-common" \\
  "$here/demo.cpp" -o "$work/demo" %(flags)s \\
  "$B/libscope.a" "$B/libprotos.a" -lprotobuf -levent -lcares || exit 3
timeout 120 "$work/demo"
'''
TRACER = '''#!/bin/bash
# Runs in the repository after the build: 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
B=$PWD/_build
export FLAGS="-std=c++11 -O0 -w -pthread -I$here/shim/include -I$B/headers/include -Iinclude -Isrc -I3rd_party/base64/include -I$B/generated -I$B/generated/lightstep-tracer-common -I$B/generated/lightstep-tracer-configuration"
export work
# what build.sh leaves out; the rest is in libscope.a
{ find src -name '*.cpp' | grep -v -e windows -e recorder/grpc_transporter/ -e no_dns_resolver \\
    -e no_stream_recorder -e version_check %(skip)s | sort
  find "$here/shim" -name '*.cpp'; echo "$here/demo.cpp"; } > "$work/list"
xargs -P 8 -I@ sh -c 'f="@"; g++ $FLAGS -c "$f" -o "$work/$(echo "$f" | tr / _).o"' < "$work/list" || exit 3
g++ -pthread "$work"/*.o 3rd_party/base64/src/base64.cpp -I3rd_party/base64/include \\
  -o "$work/demo" "$B/libprotos.a" -lprotobuf -levent -lcares -ldl %(flags)s || exit 3
timeout 120 "$work/demo"
'''

GRPC = '''#!/bin/bash
# Runs in the repository after the build: 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
B=$PWD/_build
g++ -std=c++11 -g -w -pthread -I"$here/shim/include" -I"$here/shim/grpc" \\
  -I"$B/headers/include" -Iinclude -Isrc -I"$B/generated" \\
  -I"$B/generated/lightstep-tracer-common" \\
  "$here/demo.cpp" src/recorder/grpc_transporter/*.cpp src/common/logger.cpp \\
  "$here/shim/src/opentracing.cpp" -o "$work/demo" \\
  "$B/libscope.a" "$B/libprotos.a" -lprotobuf -ldl || exit 3
timeout 120 "$work/demo"
'''


def main():
    only = sys.argv[1:]
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = '%s/seeded/%s' % (V, s['id'])
        os.makedirs(d, exist_ok=True)
        scratch = '/tmp/mkseed_' + s['id']
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
        os.makedirs(scratch, exist_ok=True)
        files = sorted(set(f for f, _, _ in s['edits']))
        diff = ''
        for f in files:
            old = open('/repo/' + f).read()
            new = old
            for g, a, b in s['edits']:
                if g == f:
                    if new.count(a) != 1:
                        raise SystemExit('%s: %d matches in %s of\n%s' % (s['id'], new.count(a), f, a))
                    new = new.replace(a, b)
            for side, text in (('a', old), ('b', new)):
                p = '%s/%s/%s' % (scratch, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(text)
            r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=scratch,
                               stdout=subprocess.PIPE, text=True)
            lines = r.stdout.split('\n')
            lines[0] = '--- a/' + f
            lines[1] = '+++ b/' + f
            diff += 'diff --git a/%s b/%s\n' % (f, f) + '\n'.join(lines)
        shutil.rmtree(scratch)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
        kind = s.get('kind', 'scope')
        if kind in ('tracer', 'grpc') and not os.path.isdir(d + '/shim'):
            shutil.copytree(V + '/shim', d + '/shim')
        body = dict(scope=SCOPE, tracer=TRACER, grpc=GRPC)[kind]
        open(d + '/demo.sh', 'w').write(body % dict(flags=s.get('flags', ''), skip=s.get('skip', '')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'],
                       what_it_breaks=s['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'])
        print(s['id'], 'ok' if r.returncode == 0 else 'DOES NOT APPLY')


main()
