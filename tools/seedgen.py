#!/usr/bin/env python3
"""seedgen.py: helper used while writing seeded changes. seed(id, prop, edits, demo, needs, breaks) applies edits to the
scratch clone /tmp/sw, records the diff and writes demo.sh, demo.cpp and meta.json under /verif/seeded/id."""
import os, subprocess, json
SW = "/tmp/sw"
DEMO = '''#!/bin/bash
# exit 0: the behaviour holds; run with cwd = the repository after its build
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 1; trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -g -w %s -DHAVE_CONFIG_H -DMAKE_STREAMS_LIB -I"$R/include" -I"$R/_build/include" -I"$R/lib" -I"$R/_build/lib" "$D/demo.cpp" %s -lz -lbz2 -o "$T/demo" || exit 1
cd "$T" && timeout 120 "$T/demo"
'''
def seed(id, prop, edits, demo, needs, breaks, asan=False, internal=False):
    subprocess.check_call("git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (SW, SW), shell=True)
    for f, a, b in edits:
        p = SW + "/" + f; s = open(p).read(); assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", SW, "diff"], text=True))
    subprocess.check_call(["git", "-C", SW, "checkout", "-q", "--", "."])
    lib = '-L"$R/_build/lib" -lstreams -Wl,-rpath,"$R/_build/lib"'
    if internal: lib = ' '.join('"$R/lib/%s"' % x for x in internal) + " " + lib
    if asan: lib = '$(ls "$R"/lib/*.cpp | grep -v -e signatureinputstream -e compat.cpp) -x c "$R/lib/lzma/LzmaDec.c" -x none'
    open(d + "/demo.sh", "w").write(DEMO % ("-fsanitize=address -fno-omit-frame-pointer" if asan else "", lib))
    open(d + "/demo.cpp", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
