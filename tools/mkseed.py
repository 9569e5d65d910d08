"""mkseed.py ID property file 'old' 'new' needs breaks   -- makes seeded/ID/{patch.diff,meta.json} from a textual edit of /repo HEAD (demo.sh is written by hand)"""
import sys, subprocess, json, os
def mk(id, prop, edits, needs, breaks):
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
    saved = {}
    try:
        for f, old, new in edits:
            p = "/repo/" + f; s = open(p).read(); saved.setdefault(p, s)
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        for p, s in saved.items(): open(p, "w").write(s)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
def demo(id, cpp, srcs="", libs="-lglog -lgflags -lpthread -lboost_container", protos=False):
    d = "/verif/seeded/" + id
    open(d + "/demo.cpp", "w").write(cpp)
    inc = "-Iinclude -Isrc" + (" -I_build/protos" if protos else "")
    if protos: libs = "_build/libprotos.a -lprotobuf " + libs
    open(d + "/demo.sh", "w").write('#!/bin/bash\nset -e\nd=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d)\ntrap \'rm -rf "$w"\' EXIT\ng++ -std=c++17 -w -g -fsanitize=address -DBOOST_THREAD_VERSION=4 %s "$d/demo.cpp" %s -o "$w/demo" %s\nexport ASAN_OPTIONS=detect_leaks=0\ntimeout 60 "$w/demo"\n' % (inc, srcs, libs))
