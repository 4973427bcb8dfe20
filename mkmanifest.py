#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks present in checks/."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    'C01': 'property-based testing: generated files and exhaustive body-length/record-length sweeps against a strict framing parser',
    'C02': 'property-based testing: metamorphic (record length) and tap-versus-reader comparison of generated record sequences',
    'C03': 'property-based testing: generated frames against a reference model, bit-exact round trip',
    'C04': 'property-based testing: generated metadata against a strict RP66 component grammar parser',
    'C05': 'property-based testing: generated metadata round trip against a reference model',
    'C06': 'property-based testing: boundary-biased values per representation code against an independent codec',
    'C07': 'property-based testing: generated object graphs, identity and reference resolution against a reference model',
    'C08': 'property-based testing: generated channel layouts, descriptors against data actually written',
    'C09': 'property-based testing: generated build orders against an order grammar and a reference model',
    'C10': 'property-based testing: metamorphic (chunk sizes) with on-disk content observed at every size change',
    'C11': 'property-based testing: differential across data sources and against pre-sliced arrays',
    'C12': 'property-based testing: invalidity injection into generated specifications, raise-or-faithful oracle',
    'C13': 'property-based testing: generated index channels and write histories, statistics recomputed by a reference model',
    'C14': 'stateful property-based testing: generated process histories, differential against a fresh process',
    'C15': 'property-based testing: extreme and minimal sizes over every accepted record length',
    'C16': 'property-based testing: generated payload sequences against a reference model',
    'C17': 'stateful property-based testing: breaches inside/outside/nested/raising high-compatibility contexts',
    'C18': 'property-based testing: generated multi-frame and multi-logical-file specifications against per-file models',
    'C19': 'property-based testing with fault injection: checksums of every caller-owned buffer and file around each write',
    'C20': 'stateful property-based testing: refused calls spliced into generated programs, differential against the program without them',
}
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import numpy, h5py; print(numpy.__version__)"', 'checks': [],
     'not_applicable': []}
for c in sorted(TECH):
    if os.path.exists(os.path.join(HERE, 'checks', c.lower() + '.py')):
        m['checks'].append({
            'property': c, 'quick_cmd': f'python3 check.py {c} --tier quick', 'thorough_cmd': f'python3 check.py {c} --tier thorough',
            'technique': TECH[c], 'level': 'exploration',
            'level_note': 'generated-input search; trusts the reader, model and generator in vlib/'})
m['hooks'] = {'guard': 'none', 'enable': 'no hooks were added to /repo: everything is observed through the public API, the written '
              'files and the interpreter (audit/profile hooks, monkeypatched wrappers in the harness process)', 'source_commits': []}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
