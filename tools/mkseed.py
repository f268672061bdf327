#!/usr/bin/env python3
"""mkseed.py ID  -- reads /tmp/s/seeds/ID.py (dict: property, needs, breaks, edits=[(file, old, new)], demo=C++ text or None,
sh=extra) and writes seeded/ID after confirming demo passes on the base and fails with the patch (scratch clone)."""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/s/repo'
SH = r'''#!/bin/bash
# compiles demo.cpp against the current tree and runs it: exit 0 iff the property holds on its inputs
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
printf '#include <string>\nstd::string __DNDS_getTraceString(){return {};}\n' > "$out/stub.cpp"
g++ -std=c++17 -O1 -w -DOMPI_SKIP_MPICXX -DDNDS_USE_OMP -DFMT_SHARED -DNINSERT -D__DNDS_REALLY_COMPILING__ -UNDEBUG \
  -I"$PWD/src" -I"$PWD" -I/usr/include/eigen3 -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi \
  -I/usr/include/hdf5/openmpi -I/usr/include/superlu-dist -I/usr/include/argparse -I/opt/vp/cmake/none -I/opt/vp/cmake/pybind11/include -I/opt/vp/cmake/fmt/include \
  "$here/demo.cpp" "$out/stub.cpp" EXTRA_SRC -o "$out/demo" -L/opt/vp/cmake/fmt -Wl,-rpath,/opt/vp/cmake/fmt -lfmt -ldl -lmpi || exit 2
cd "$out" && ./demo
'''
for sid in sys.argv[1:]:
    d = {}
    exec(open('/tmp/s/seeds/%s.py' % sid).read(), d)
    o = os.path.join(V, 'seeded', sid)
    os.makedirs(o, exist_ok=True)
    subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--', '.'])
    subprocess.check_call(['git', '-C', S, 'pull', '-q'])
    open(o + '/demo.cpp', 'w').write(d['demo'])
    open(o + '/demo.sh', 'w').write(d.get('sh') or SH.replace('EXTRA_SRC', d.get('src', '')))
    os.chmod(o + '/demo.sh', 0o755)
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(o + '/meta.json', 'w'), indent=1)
    r0 = subprocess.run([o + '/demo.sh'], cwd=S, capture_output=True, text=True)
    for f, a, b, *k in d['edits']:
        s = open(S + '/' + f, newline='').read()
        if '\r\n' in s:
            a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
        q = s.split(a)
        if k:
            s = a.join(q[:k[0] + 1]) + b + a.join(q[k[0] + 1:])
        else:
            assert len(q) == 2, (f, a, len(q) - 1)
            s = b.join(q)
        open(S + '/' + f, 'w', newline='').write(s)
    p = subprocess.run(['git', '-C', S, 'diff'], capture_output=True).stdout
    open(o + '/patch.diff', 'wb').write(p)
    r1 = subprocess.run([o + '/demo.sh'], cwd=S, capture_output=True, text=True)
    subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--', '.'])
    print(sid, 'base', r0.returncode, 'patched', r1.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else '', (r1.stdout + r1.stderr)[-200:])
