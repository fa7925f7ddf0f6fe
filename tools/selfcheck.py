#!/usr/bin/env python3-vt
"""Checks that the oracle itself is sound: the reference model reproduces
every example of the CommonMark 0.29 specification (a copy of its examples is
in vf/data/spec_html.json).  Needs nothing of /repo."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import refmodel  # noqa: E402

bad = 0
SPEC = json.load(open(os.path.join(ROOT, 'vf', 'data', 'spec_html.json')))
for md, want in SPEC:
    if refmodel.to_html(md)[0] != want:
        bad += 1
        print('the reference model fails example: %r' % md)
print('%d examples, %d failures' % (len(SPEC), bad))
sys.exit(bad != 0)
