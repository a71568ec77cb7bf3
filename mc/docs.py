"""Whole documents: build, convert, observe; and canonical forms that can be compared."""
import hashlib
import os
from .env import Converter, quiet
from .pdfgen import make_pdf
from .docxobs import Docx


def clean(x):
    """An observation without raw bytes, so that it can be compared and digested"""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items() if k != 'data'}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, float):
        return round(x, 3)
    return x


def sections(path):
    """[canonical section] of a docx; the type of section break depends on the place in the document only"""
    r = []
    for s in Docx(path).sections:
        s = clean(s)
        s['sect'].pop('type', None)
        r.append(s)
    return r


def first_diff(a, b, at='', tol=0.0):
    """a short description of the first difference of two canonical observations, or None"""
    if tol and isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if abs(a - b) <= tol else f'{at}: {a} != {b}'
    if type(a) is not type(b):
        return f'{at}: {str(a)[:120]} != {str(b)[:120]}'
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f'{at}.{k}: {str(a.get(k))[:120]} != {str(b.get(k))[:120]}'
            d = first_diff(a[k], b[k], f'{at}.{k}', tol)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f'{at}: {len(a)} items != {len(b)}: {str(a)[:160]} != {str(b)[:160]}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, f'{at}[{i}]', tol)
            if d:
                return d
        return None
    return None if a == b else f'{at}: {str(a)[:160]} != {str(b)[:160]}'


def sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()


def tree(folder):
    """{relative path: digest} of everything below a folder"""
    r = {}
    for d, dirs, files in os.walk(folder):
        for n in dirs:
            r[os.path.relpath(os.path.join(d, n), folder) + '/'] = 'dir'
        for n in files:
            p = os.path.join(d, n)
            r[os.path.relpath(p, folder)] = sha(p)
    return r


def convert(pdf, out, quietly=True, **kw):
    with quiet():
        cv = Converter(pdf)
        try:
            cv.convert(out, **kw)
        finally:
            cv.close()


def build(pages, path):
    return make_pdf(pages, path)
