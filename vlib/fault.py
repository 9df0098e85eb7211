"""Fault injection: an exception at the k-th executed line of the code under test (lines of handlers and `finally` blocks are spared)."""
import ast
import os
import sys
import numpy as np
import pandas as pd
from vlib.core import Skip


class Injected(Exception):
    pass


_spared = {}


def spared(filename):
    """lines of except handlers, finally blocks and of functions called there only through them are not interrupted"""
    if filename not in _spared:
        s = set()
        try:
            for n in ast.walk(ast.parse(open(filename).read())):
                if isinstance(n, ast.Try):
                    for b in list(n.finalbody) + list(n.handlers):
                        s.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
        except (OSError, SyntaxError):
            pass
        _spared[filename] = s
    return _spared[filename]


def _root():
    import datafold
    return os.path.dirname(os.path.abspath(datafold.__file__)) + os.sep


def run(fn, at=None):
    """runs fn(); returns (number of executed lines of the code under test, result or None, exception or None)"""
    root, n = _root(), [0]

    def local(frame, event, arg):
        if event == "line":
            f = frame
            while f is not None and f.f_code.co_filename.startswith(root):
                if f.f_lineno in spared(f.f_code.co_filename):
                    return local
                f = f.f_back
            n[0] += 1
            if at is not None and n[0] == at:
                sys.settrace(None)
                raise Injected(f"{frame.f_code.co_filename[len(root):]}:{frame.f_lineno}")
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(root) else None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        r = fn()
        return n[0], r, None
    except Exception as e:
        return n[0], None, e
    finally:
        sys.settrace(old)


def corrupt(rng, a):
    """an argument the call has to reject (or at least must not change)"""
    try:
        return _corrupt(rng, a)
    except Skip:
        raise
    except Exception:                                         # the operation does not exist for this dtype
        raise Skip()


def _corrupt(rng, a):
    """an argument the call has to reject (or at least must not change)"""
    if isinstance(a, pd.DataFrame):
        op = str(rng.choice(["rename", "drop", "permute", "nan", "inf", "object", "reverse", "irregular", "single", "extra", "int", "plain", "array", "empty"]))
        b = a.copy(deep=True)
        try:
            if op == "rename":
                b.columns = pd.Index(["zz"] + list(b.columns[1:]), name=b.columns.name)
            elif op == "drop":
                b = b.iloc[:, 1:]
            elif op == "permute":
                b = b.iloc[:, ::-1]
            elif op in ("nan", "inf"):
                b.iloc[int(rng.integers(b.shape[0])), int(rng.integers(b.shape[1]))] = np.nan if op == "nan" else np.inf
            elif op == "object":
                b = pd.DataFrame(b).astype(object); b.iloc[0, 0] = "a"
            elif op == "reverse":
                b = b.iloc[::-1]
            elif op == "irregular":
                b = b.drop(index=b.index[1])
            elif op == "single":
                b = b.iloc[[0]]
            elif op == "extra":
                b["zz"] = 1.
            elif op == "int":
                b = b.round().astype(int)
            elif op == "plain":
                b = pd.DataFrame(b.to_numpy(), columns=list(b.columns))
            elif op == "array":
                b = b.to_numpy().copy()
            else:
                b = b.iloc[:0]
        except Exception:
            raise Skip()
        return op, b
    if isinstance(a, np.ndarray):
        op = str(rng.choice(["nan", "inf", "object", "1d", "3d", "columns", "empty", "int", "fortran", "read-only", "list", "reverse", "duplicate"]))
        b = np.array(a, copy=True)
        if op in ("nan", "inf"):
            b = b.astype(float); b.flat[int(rng.integers(b.size))] = np.nan if op == "nan" else np.inf
        elif op == "object":
            b = b.astype(object)
        elif op == "1d":
            b = b.ravel()
        elif op == "3d":
            b = b.reshape(b.shape + (1,))
        elif op == "columns":
            b = b[..., 1:] if b.ndim > 1 else b[1:]
        elif op == "empty":
            b = b[:0]
        elif op == "int":
            b = np.round(b).astype(int)
        elif op == "fortran":
            b = np.asfortranarray(b)
        elif op == "read-only":
            b.flags.writeable = False
        elif op == "list":
            b = b.tolist()
        elif op == "reverse":
            b = b[::-1].copy()
        else:
            b = np.concatenate([b, b])
        return op, b
    return "as is", a
