"""Running emitted Verilog with Icarus Verilog in the worker's scratch directory."""
import os
import re
import shutil
import subprocess
import tempfile

from .core import Inconclusive, Violation

COMPILE_TIMEOUT = 60
RUN_TIMEOUT = 60
MAX_OUT = 64 * 1024 * 1024


def compile_and_run(text, top=None, timeout=RUN_TIMEOUT, extra_files=None, keep=None, check_compile=True,
                    args=()):
    """Compile Verilog text and run it; returns stdout.  A compile error is a Violation (the
    library emitted invalid Verilog for an accepted design)."""
    d = tempfile.mkdtemp(prefix='sim_', dir=os.getcwd())
    try:
        src = os.path.join(d, 't.v')
        with open(src, 'w') as f:
            f.write(text)
        for n, c in (extra_files or {}).items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(c)
        cmd = ['iverilog', '-g2005', '-o', 't.vvp']
        if top:
            cmd += ['-s', top]
        cmd += ['t.v']
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=COMPILE_TIMEOUT)
        except subprocess.TimeoutExpired:
            raise Inconclusive('iverilog timeout')
        if r.returncode != 0:
            msg = r.stdout.decode(errors='replace')
            if r.returncode < 0 or 'Assertion' in msg or 'assert:' in msg or 'Aborted' in msg or \
                    'internal error' in msg or 'Segmentation' in msg:
                raise Inconclusive('iverilog crashed')
            if not check_compile:
                return None
            raise Violation('emitted Verilog does not compile:\n%s\n---\n%s' % (
                r.stdout.decode(errors='replace')[:1500], text[:3000]))
        try:
            r = subprocess.run(['vvp', '-N', 't.vvp'] + list(args), cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            raise Inconclusive('vvp timeout')
        if r.returncode < 0:
            raise Inconclusive('vvp killed by signal %d' % -r.returncode)
        return r.stdout.decode(errors='replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)
