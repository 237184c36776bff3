#!/usr/bin/env python3
"""Checks that the tools the simulations need are present; every check builds its own simulator from /repo's working tree."""
import shutil, sys, os
missing = [t for t in ('clang++', 'python3') if not shutil.which(t)]
if missing:
    print('missing: ' + ' '.join(missing)); sys.exit(1)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('build', 'evidence', 'replays'):
    os.makedirs(os.path.join(V, d), exist_ok=True)
