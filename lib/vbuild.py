"""Builds the code under test from /repo's working tree, plus one harness.

Every check calls build(); nothing is taken from an earlier build except what
ninja finds unchanged in the same /verif/.build directory.
"""
import os
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))

CXX = '/usr/bin/clang++'
CC_COMMON = ['-g1', '-fno-omit-frame-pointer', '-pthread', '-w']
CONFIGS = {
    # address + undefined behaviour; float-divide/cast are not part of the rule
    'asan': ['-O1', '-fsanitize=address,undefined',
             '-fno-sanitize=vptr,function',
             '-fno-sanitize-recover=undefined'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O1'],
    # ASan, with operator new of the harness (lib/oom.hpp)
    'oom': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function',
            '-fno-sanitize-recover=undefined'],
    'cov': ['-O1', '-fprofile-instr-generate', '-fcoverage-mapping'],
}
# Sources that are the other platform's, or the other half of an either/or.
EXCLUDE_SUFFIX = ('_windows.cpp',)
EXCLUDE = {
    'src/recorder/grpc_transporter/grpc_transporter.cpp',
    'src/network/no_dns_resolver.cpp',
    'src/recorder/no_stream_recorder.cpp',
    'src/common/version_check.cpp',
}


def repo_sources(extra=()):
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith('.cpp') or f.endswith(EXCLUDE_SUFFIX):
                continue
            rel = os.path.relpath(os.path.join(root, f), REPO)
            if rel in EXCLUDE and rel not in extra:
                continue
            out.append(rel)
    return out


def in_groups(rel, groups):
    """groups: None for everything, or a list of prefixes/paths under src/."""
    return groups is None or any(
        rel.startswith('src/' + g.lstrip('=')) for g in groups)


def version_header(gen):
    """version.h, as the project's HEADERS_ONLY cmake mode writes it."""
    bdir = os.path.join(gen, 'headers')
    os.makedirs(bdir, exist_ok=True)
    out = os.path.join(bdir, 'include', 'lightstep', 'version.h')
    r = subprocess.run(
        ['cmake', '-S', REPO, '-B', bdir, '-G', 'Ninja', '-DHEADERS_ONLY=ON',
         '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '--log-level=ERROR',
         '--no-warn-unused-cli'], stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True,
        env=dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++'))
    if r.returncode != 0 or not os.path.exists(out):
        sys.stdout.write(r.stdout)
        raise SystemExit(3)
    return os.path.join(bdir, 'include')


def locales():
    """A directory with Turkish locales (a process may run under any)."""
    out = os.path.join(BUILD, 'locale')
    for charset in ('UTF-8', 'ISO-8859-9'):
        path = os.path.join(out, 'tr_TR.' + charset)
        if os.path.exists(os.path.join(path, 'LC_CTYPE')):
            continue
        os.makedirs(out, exist_ok=True)
        try:
            subprocess.run(['localedef', '-i', 'tr_TR', '-f', charset, path],
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=60)
        except (OSError, subprocess.TimeoutExpired):
            pass  # the cases then run under the C locale
    return out


def esc(s):
    return s.replace('$', '$$').replace(' ', '$ ').replace(':', '$:')


def guarded_map(gen):
    """protobuf's maps do not survive an allocation that fails, which is not
    this repository's doing: theirs succeed.  Returns an include directory."""
    dst = gen + '/oom_include'
    os.makedirs(dst + '/google/protobuf', exist_ok=True)
    for d in ('/usr/include', '/usr/local/include'):
        if os.path.exists(d + '/google/protobuf/map.h'):
            with open(d + '/google/protobuf/map.h') as f:
                text = f.read()
    text = ('#include <stddef.h>\nvoid* verif_map_new(size_t);\n' +
            text.replace('::operator new(', '::verif_map_new('))
    path = dst + '/google/protobuf/map.h'
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, 'w') as f:
            f.write(text)
    return dst


def build(name, harness, config='asan', groups=None, tracer=True, extra_libs=(),
          extra_flags=(), wrap=(), defines=()):
    """Returns the path of the harness binary."""
    root = os.path.join(BUILD, config)
    gen = os.path.join(BUILD, 'gen')
    os.makedirs(root, exist_ok=True)
    os.makedirs(gen, exist_ok=True)
    vinc = version_header(gen)
    san = CONFIGS[config]
    inc = ['-I' + VERIF + '/shim/include', '-I' + VERIF + '/shim/grpc', '-I' + REPO + '/include',
           '-I' + REPO + '/src', '-I' + REPO + '/3rd_party/base64/include',
           '-I' + vinc, '-I' + gen + '/proto']
    if config == 'oom':
        inc.insert(0, '-I' + guarded_map(gen))
    base = CC_COMMON + san + inc + list(defines)
    lines = ['ninja_required_version = 1.5']
    lines.append('rule cxx11\n  command = %s -std=c++11 %s -MMD -MF $out.d -c '
                 '$in -o $out\n  depfile = $out.d\n  deps = gcc'
                 % (CXX, ' '.join(base)))
    lines.append('rule cxx17\n  command = %s -std=c++17 %s %s -I%s/lib -MMD -MF '
                 '$out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc'
                 % (CXX, ' '.join(base), ' '.join(extra_flags), VERIF))
    lines.append('rule cxxpb\n  command = %s -std=c++11 -O0 -g0 -w -pthread %s '
                 '-MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n'
                 '  deps = gcc' % (CXX, ' '.join(inc)))
    lines.append('rule proto\n  command = protoc -I%s/lightstep-tracer-common/'
                 'third_party/googleapis -I%s --cpp_out=%s/proto $in'
                 % (REPO, REPO, gen))
    lines.append('rule proto2\n  command = protoc -I%s/lightstep-tracer-common/'
                 'third_party/googleapis --cpp_out=%s/proto $in'
                 % (REPO, gen))
    lines.append('rule ar\n  command = rm -f $out && llvm-ar-18 rcs $out $in'
                 if os.path.exists('/usr/bin/llvm-ar-18') else
                 'rule ar\n  command = rm -f $out && ar rcs $out $in')
    wl = ''.join(' -Wl,--wrap=' + w for w in wrap)
    lines.append('rule link\n  command = %s %s -fuse-ld=lld -pthread%s $in -o '
                 '$out $libs' % (CXX, ' '.join(san), wl))
    os.makedirs(gen + '/proto', exist_ok=True)

    protos = []
    common = 'lightstep-tracer-common'
    for p in ['collector', 'lightstep_carrier']:
        protos.append(('%s/%s.proto' % (common, p),
                       '%s/proto/%s/%s' % (gen, common, p), 'proto'))
    protos.append(('lightstep-tracer-configuration/tracer_configuration.proto',
                   gen + '/proto/lightstep-tracer-configuration/'
                   'tracer_configuration', 'proto'))
    for p in ['google/api/annotations', 'google/api/http']:
        protos.append(('%s/third_party/googleapis/%s.proto' % (common, p)
                       if False else None, gen + '/proto/' + p, 'proto2'))
    hdrs, objs, pobjs, pb = [], [], [], []
    for src, outp, rule in protos:
        if src is None:
            rel = outp[len(gen + '/proto/'):]
            srcp = None
            for cand in ('googleapis', ''):
                q = os.path.join(REPO, common, 'third_party', cand,
                                 rel + '.proto')
                if os.path.exists(q):
                    srcp = q
            src_full = srcp
        else:
            src_full = os.path.join(REPO, src)
        lines.append('build %s.pb.cc %s.pb.h: %s %s' % (
            outp, outp, rule, src_full))
        hdrs.append(outp + '.pb.h')
        o = root + '/proto_' + outp[len(gen + '/proto/'):].replace('/', '_') + '.o'
        # generated code is not under test: no sanitizer needed, -O0 compiles fast
        pb.append((o, outp))
        pobjs.append(o)
    H = ' '.join(hdrs)
    for o, outp in pb:
        lines.append('build %s: cxxpb %s.pb.cc || %s' % (o, outp, H))
    # '=path' in groups picks the other half of an either/or
    extra = ['src/' + g[1:] + '.cpp' for g in groups or () if g[0] == '=']
    for rel in repo_sources(extra):
        if not in_groups(rel, groups):
            continue
        o = root + '/repo_' + rel.replace('/', '_') + '.o'
        lines.append('build %s: cxx11 %s || %s' % (o, REPO + '/' + rel, H))
        objs.append(o)
    if tracer:
        b64 = REPO + '/3rd_party/base64/src/base64.cpp'
        o = root + '/repo_base64.o'
        lines.append('build %s: cxx11 %s || %s' % (o, b64, H))
        objs.append(o)
        o = root + '/shim_opentracing.o'
        lines.append('build %s: cxx11 %s/shim/src/opentracing.cpp' % (o, VERIF))
        objs.append(o)
    lib = root + '/lib_%s.a' % name
    lines.append('build %s: ar %s' % (lib, ' '.join(objs + pobjs)))
    hobjs = []
    for h in ([harness] if isinstance(harness, str) else harness):
        o = root + '/h_%s_%s.o' % (name, os.path.basename(h))
        lines.append('build %s: cxx17 %s || %s' % (o, os.path.join(VERIF, h), H))
        hobjs.append(o)
    exe = root + '/' + name
    libs = ' '.join([lib] + list(extra_libs) + [
        '-lprotobuf', '-levent_core', '-levent_pthreads', '-lcares', '-ldl'])
    lines.append('build %s: link %s | %s\n  libs = %s' % (
        exe, ' '.join(hobjs), lib, libs))
    lines.append('default ' + exe)
    nf = root + '/%s.ninja' % name
    text = '\n'.join(lines) + '\n'
    with open(nf, 'w') as f:
        f.write(text)
    r = subprocess.run(['ninja', '-f', nf, '-j', str(os.cpu_count() or 4)],
                       cwd=root, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-8000:])
        raise SystemExit(3)
    return exe
