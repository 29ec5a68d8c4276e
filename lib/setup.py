#!/usr/bin/env python3
"""Checks that the tools needed are present and that the instrumented build works."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for t in ('g++', 'gcc', 'ninja', 'gperf'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
import vbuild
from harnesses import HARNESSES
from props import PROPS
need = {}
for p in PROPS.values():
    for j in p['jobs']:
        need.setdefault(j.get('v', 'asan'), set()).add(j['h'])
for v, hs in need.items():
    print(v, vbuild.build(v, sorted(hs)))
