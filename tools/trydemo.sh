#!/bin/bash
# trydemo.sh ID...: does the demo tell the patched tree from the unchanged one?
# Works on a scratch copy whose build directory it links to /repo's layout.
for id in "$@"; do
  s=/tmp/trydemo_$id
  cp -a /repo "$s"
  ( cd "$s" && sed -i "s#/repo#$s#g" _build/build.ninja; 
    bash /verif/seeded/$id/demo.sh > $s.clean 2>&1; a=$?
    git apply /verif/seeded/$id/patch.diff && cd "$s" &&
    for f in $(grep '^+++ b/' /verif/seeded/$id/patch.diff | sed 's#+++ b/##'); do :; done
    # rebuild libscope.a from the patched sources
    mkdir -p $s.o
    python3 - "$s" <<'P'
import subprocess,sys,os
s=sys.argv[1]
src=[l.strip() for l in open('/opt/vp/scope/in_scope.txt') if l.strip().endswith('.cpp')]
src=[x for x in src if x.startswith('src/')]
B=s+'/_build'
inc=['-I'+B+'/headers/include','-I'+s+'/include','-I'+s+'/src','-I'+s+'/3rd_party/base64/include','-I'+B+'/generated','-I'+B+'/generated/lightstep-tracer-common','-I'+B+'/generated/lightstep-tracer-configuration']
ps=[]
objs=[]
for x in src+['3rd_party/base64/src/base64.cpp']:
    o='%s.o/%s.o'%(s,x.replace('/','_')); objs.append(o)
    ps.append(subprocess.Popen(['g++','-std=c++11','-g','-w','-fPIC','-pthread']+inc+['-c',s+'/'+x,'-o',o]))
bad=[p for p in ps if p.wait()]
os.unlink(B+'/libscope.a')
subprocess.check_call(['ar','rcs',B+'/libscope.a']+objs)
P
    bash /verif/seeded/$id/demo.sh > $s.bug 2>&1; b=$?
    echo "$id clean=$a patched=$b  $([ $a = 0 ] && [ $b != 0 ] && echo ok || echo BAD)"; tail -1 $s.clean; tail -2 $s.bug )
  rm -rf "$s" "$s.o" "$s.clean" "$s.bug"
done
