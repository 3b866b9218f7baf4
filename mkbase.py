#!/usr/bin/env python3
"""Rewrites specs/base.json (the names of the locals the contracts were written for) from /repo's tree; run it after editing contracts."""
import os, subprocess
from props import PROPS
V = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOFLAGS='-mod=mod', GOTOOLCHAIN='local')
b = os.path.join(V, 'specs', 'base.json')
if os.path.exists(b):
    os.unlink(b)
chains = []
for p in PROPS.values():
    for k in ('specs', 'whole'):
        if p.get(k) and p[k] not in chains and p[k] != ['frame']:
            chains.append(p[k])
subprocess.check_call(['go', 'build', '-o', os.path.join(V, 'build', 'go2verus'), '.'], cwd=os.path.join(V, 'go2verus'), env=env)
for c in chains:
    subprocess.check_call([os.path.join(V, 'build', 'go2verus'), '-repo', '/repo', '-specs', ','.join(os.path.join(V, 'specs', s + '.vs') for s in ['common'] + c),
                           '-prelude', os.path.join(V, 'specs', 'prelude.rs'), '-o', '/dev/null', '-base', b, '-writebase'], env=env, stderr=subprocess.DEVNULL)
