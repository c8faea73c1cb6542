"""Helper of the demonstrations: simulate a design with Icarus Verilog in a scratch directory."""
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.getcwd())
sys.setrecursionlimit(20000)

TB = '''
module tb;
  reg CLK, RST; integer cyc;
  initial begin CLK = 0; forever #5 CLK = !CLK; end
  initial begin RST = 0; #2 RST = 1; #100 RST = 0; end
  initial cyc = 0;
  always @(posedge CLK) begin cyc = cyc + 1; if(cyc > %d) $finish(0); end
  %s
endmodule
'''


def sim(text, top='tb'):
    d = tempfile.mkdtemp()
    try:
        with open(d + '/t.v', 'w') as f:
            f.write(text)
        subprocess.run(['iverilog', '-g2012', '-s', top, '-o', d + '/t.vvp', d + '/t.v'], check=True)
        r = subprocess.run(['vvp', '-N', d + '/t.vvp'], cwd=d, stdout=subprocess.PIPE, timeout=120)
        return [' '.join(l.split()) for l in r.stdout.decode().splitlines() if l.strip()]
    finally:
        shutil.rmtree(d)


def check(got, want):
    if got != want:
        print('MISMATCH\n got  %s\n want %s' % (got, want))
        sys.exit(1)
    print('ok')
    sys.exit(0)
