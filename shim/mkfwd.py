#!/usr/bin/env python3
"""Write the forwarding headers of the stand-ins: one small file per header name the sources of /repo include."""
import os, re, subprocess, sys
S = os.path.dirname(os.path.abspath(__file__))
MAIN = {'takatori': 'takatori/tk.h', 'yugawara': 'yugawara/yg.h', 'tateyama': 'tateyama/ty.h', 'limestone': 'limestone/ls.h', 'data_relay_grpc': 'data_relay_grpc/dr.h'}
names = set()
for root in ('/repo/src', '/repo/include'):
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(('.h', '.cpp')):
                names |= set(re.findall(r'#include [<"]((?:takatori|yugawara|tateyama|limestone|data_relay_grpc)/[^>"]*)[>"]', open(os.path.join(d, f), errors='replace').read()))
names |= {'takatori/util/reference_vector.h', 'takatori/util/clonable.h'}
for n in sorted(names):
    if n.endswith('.pb.h'): continue
    p = os.path.join(S, n)
    if os.path.exists(p): continue
    os.makedirs(os.path.dirname(p), exist_ok=True)
    top = n.split('/')[0]
    open(p, 'w').write('#pragma once\n#include <%s>\n' % MAIN[top])
