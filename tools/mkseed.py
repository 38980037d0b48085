#!/usr/bin/env python3
"""mkseed.py ID <<< JSON-ish python dict: property, needs, breaks, file, old, new (or edits=[(file,old,new)]), demo (C++ main body file text)."""
import sys, os, json, subprocess
SH = r'''#!/bin/bash
# run with cwd = repository; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -w -DNDEBUG -DFMT_HEADER_ONLY -I src -I /opt/vp/deps/fmt/include "$here/demo.cpp" -o "$t/demo" || exit 4
cd "$t" && timeout 120 ./demo
'''
def mk(i, property, needs, breaks, edits, demo, sh=None):
    d = f'/verif/seeded/{i}'; os.makedirs(d, exist_ok=True)
    for f, o, n in edits:
        p = '/repo/' + f; s = open(p).read(); assert s.count(o) == 1, (i, f, s.count(o))
        open(p, 'w').write(s.replace(o, n))
    df = subprocess.run('git -C /repo diff', shell=True, capture_output=True, text=True).stdout
    subprocess.run('git -C /repo checkout -- .', shell=True, capture_output=True)
    open(d + '/patch.diff', 'w').write(df); open(d + '/demo.sh', 'w').write(sh or SH)
    if demo: open(d + '/demo.cpp', 'w').write(demo)
    json.dump(dict(property=property, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
if __name__ == '__main__':
    for f in sys.argv[1:]:
        exec(open(f).read())
