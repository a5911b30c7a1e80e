#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a patch, a demonstration source and a description (development tool)."""
import json, os, shutil, sys, re
HERE = os.path.dirname(os.path.abspath(__file__)); SEED = os.path.join(os.path.dirname(HERE), 'seeded')
SH = '''#!/bin/bash
# exit 0: the property holds on this demonstration; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
%s -I include -I "$D" "$D/demo.cpp" -o "$T/demo" %s || exit 4
(ulimit -c 0; timeout 250 "$T/demo")
'''
def mk(name, patch, prop, needs, breaks, src, cxx='g++ -std=c++17 -O1 -w', libs=''):
    d = os.path.join(SEED, name); os.makedirs(d, exist_ok=True)
    shutil.copy(patch, os.path.join(d, 'patch.diff'))
    open(os.path.join(d, 'demo.cpp'), 'w').write(src)
    todo = re.findall(r'#include "(\w+\.hpp)"', src); seen = set()
    while todo:
        h = todo.pop()
        if h in seen: continue
        seen.add(h); p = os.path.join(HERE, 'demo', h); shutil.copy(p, d)
        todo += re.findall(r'#include "(\w+\.hpp)"', open(p).read())
    f = os.path.join(d, 'demo.sh'); open(f, 'w').write(SH % (cxx, libs)); os.chmod(f, 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
