#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
if os.path.realpath(sys.prefix) != '/opt/venv' and os.path.exists(PY) and not os.environ.get('VERIF_PY'):
    os.environ['VERIF_PY'] = '1'
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
from vlib.runner import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
