"""Shared machinery of the checks (see DESIGN.md)."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

# hypothesis: from the pre-installed tooling venv (same Python 3.12), appended last so that
# nothing in it can shadow the interpreter's own packages; wheels are importable archives.
_cands = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']
for _c in _cands:
    if os.path.isdir(_c) and _c not in sys.path:
        sys.path.append(_c)
try:
    import hypothesis  # noqa: F401
except ImportError:
    _w = '/opt/veriftools/wheels'
    for _n in sorted(os.listdir(_w)) if os.path.isdir(_w) else []:
        if _n.endswith('.whl') and _n.split('-')[0] in ('hypothesis', 'attrs', 'sortedcontainers'):
            sys.path.append(os.path.join(_w, _n))


def _share_templates():
    """pyverilog compiles its jinja2 templates once per code generator; share them (speed only)."""
    import pyverilog.ast_code_generator.codegen as cg
    shared = {}
    orig = cg.ASTCodeGenerator.__init__

    def init(self, *a, **kw):
        orig(self, *a, **kw)
        self.template_cache = shared
    cg.ASTCodeGenerator.__init__ = init


_share_templates()
