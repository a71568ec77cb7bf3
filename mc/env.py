"""Binds the harness to the code under test: /repo's working tree (override: PDF2DOCX_REPO).

The tree wants names that old releases of Python and PyMuPDF had; the same aliases that the
build uses (/opt/vp/compat/oldnames.py) are set here, so that nothing outside /verif and /repo
and the interpreter's packages is needed.  Nothing is reimplemented.
"""
import os
import sys
import collections
import collections.abc
import contextlib
import io
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PDF2DOCX_REPO', '/repo')
for _k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS'):
    os.environ.setdefault(_k, '1')
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.filterwarnings('ignore')

collections.Iterable = collections.abc.Iterable
import fitz  # noqa: E402
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    fitz.restore_aliases()
fitz.TOOLS.mupdf_display_errors(False)
import cv2  # noqa: E402,F401
import numpy  # noqa: E402,F401
cv2.setNumThreads(1)
import pdf2docx  # noqa: E402
assert os.path.realpath(pdf2docx.__file__).startswith(os.path.realpath(REPO) + os.sep), pdf2docx.__file__
import pdf2docx.main  # noqa: E402
import pdf2docx.converter  # noqa: E402
from pdf2docx import Converter  # noqa: E402,F401


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


@contextlib.contextmanager
def quiet():
    """No output of the code under test reaches the check's own stdout."""
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = _Null()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err
