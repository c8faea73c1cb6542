"""setup_cmd: verifies that the tools the checks need are present (nothing is built)."""
import shutil
import sys
import vlib  # noqa: F401
import hypothesis
import veriloggen
assert veriloggen.__file__.startswith(vlib.REPO), veriloggen.__file__
for t in ('iverilog', 'vvp', 'verilator'):
    assert shutil.which(t), t
print('ok', hypothesis.__version__, sys.version.split()[0])
