#!/usr/bin/env python3
"""setup_cmd: parses every module of the specification and imports the harness (nothing is built)."""
import concurrent.futures
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from vlib import core  # noqa: E402
from vlib.registry import load_all  # noqa: E402


def parse(name):
    with tempfile.TemporaryDirectory() as tmp:
        p = subprocess.run(
            ['java', '-Djava.io.tmpdir=' + tmp, '-cp', core.TLA_CP, 'tla2sany.SANY', name],
            cwd=core.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
        )
    return name, p.returncode, p.stdout


def main():
    registry = load_all()
    names = sorted(n for n in os.listdir(core.SPEC) if n.endswith('.tla'))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for name, rc, out in ex.map(parse, names):
            if rc:
                print(out)
                return 1
    print('%d modules parsed, %d properties registered' % (len(names), len(registry)))
    return 0


sys.exit(main())
