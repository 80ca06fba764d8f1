"""Helper for planting bugs: bug(id, prop, needs, breaks, edits, demo.cpp text, objects | demo.sh text)."""
import json, os, subprocess
V = '/verif/seeded'
CXX = '#!/bin/bash\n# usage: run in /repo after the build\nD=$(mktemp -d); trap \'rm -rf "$D"\' EXIT\nHERE=$(cd "$(dirname "$0")" && pwd)\nL=/usr/lib/llvm-20\n$L/bin/clang++ -std=c++20 -O1 -w -I"$PWD" -I"$HERE" -I_build/gen -isystem /opt/vp/heir/shim -isystem $L/include -isystem /usr/include/eigen3 \\\n  "$HERE/demo.cpp" %s -fuse-ld=lld -L$L/lib -Wl,-rpath,$L/lib -lisl -lMLIR -lLLVM-20 -labsl_int128 -lpthread -o "$D/demo" || exit 3\ntimeout 120 "$D/demo"\n'
def bug(i, prop, needs, breaks, edits, cpp=None, objs=(), sh=None, files={}):
    d = f'{V}/{i}'; os.makedirs(d, exist_ok=True)
    for f, pairs in edits.items():
        p = '/repo/' + f; t = open(p).read()
        for a, b in pairs:
            assert t.count(a) == 1, (f, a, t.count(a))
            t = t.replace(a, b)
        open(p, 'w').write(t)
    diff = subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True)
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    if cpp:
        open(d + '/demo.cpp', 'w').write(cpp)
        sh = CXX % ' '.join(o for o in objs)
    open(d + '/demo.sh', 'w').write(sh)
    for f, t in files.items(): open(d + '/' + f, 'w').write(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
