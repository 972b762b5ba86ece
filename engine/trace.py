"""Tracing of the real code to jaxprs, with exploration of Python branches on
symbolic values (each `if` on a traced boolean forks a path)."""
from __future__ import annotations
import os
import sys
import threading
import jax
import numpy as np
from jax._src import core as _core

REPO = os.environ.get("MAGPI_REPO", "/repo")
FUNCTIONS: set = set()


def _profile(frame, event, arg):
    if event == "call":
        co = frame.f_code
        fn = co.co_filename
        if "/magpi/" in fn and "/tests/" not in fn:
            q = getattr(co, "co_qualname", co.co_name)
            FUNCTIONS.add(fn.rsplit("/magpi/", 1)[1] + ":" + q)


class recording:
    def __enter__(self):
        sys.setprofile(_profile)

    def __exit__(self, *a):
        sys.setprofile(None)


class _State(threading.local):
    active = None


_state = _State()
_orig_bool = _core.Tracer.__bool__


class _Explore:
    def __init__(self, prefix, trace_holder):
        self.prefix = prefix
        self.decisions = []
        self.conds = []


def _bool(self):
    ex = _state.active
    if ex is None or type(self).__name__ != "DynamicJaxprTracer":
        return _orig_bool(self)
    if self.aval.shape != ():
        return _orig_bool(self)
    k = len(ex.decisions)
    d = ex.prefix[k] if k < len(ex.prefix) else True
    ex.decisions.append(d)
    ex.conds.append(self)
    if len(ex.decisions) > 60:
        raise RuntimeError("too many branches on one path")
    return d


_core.Tracer.__bool__ = _bool


class Raised:
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"Raised({type(self.exc).__name__}: {str(self.exc)[:200]})"


class Path:
    """one path of the traced code"""
    __slots__ = ("jaxpr", "decisions", "nconds", "treedef", "raised", "noneleaf")


_NONTRACE = (jax.errors.TracerArrayConversionError, jax.errors.TracerIntegerConversionError,
             jax.errors.ConcretizationTypeError, jax.errors.UnexpectedTracerError,
             jax.errors.NonConcreteBooleanIndexError)


def explore(fn, avals, max_paths=64):
    """All paths of fn over abstract inputs. Yields Path objects; their
    jaxpr returns (conds..., flat outputs...)."""
    work = [()]
    paths = []
    while work:
        prefix = work.pop()
        ex = _Explore(prefix, None)
        info = {}

        def wrapped(*flat):
            _state.active = ex
            try:
                out = fn(*flat)
                leaves, tree = jax.tree_util.tree_flatten(out)
                leaves = [jax.numpy.asarray(l) if not (hasattr(l, "dtype")) else l for l in leaves]
                info["tree"] = tree
                info["raised"] = None
            except _NONTRACE:
                raise
            except Exception as e:  # the real code raised on this path
                info["tree"], info["raised"] = None, Raised(e)
                leaves = []
            finally:
                _state.active = None
            conds = [jax.numpy.asarray(c) for c in ex.conds]
            return tuple(conds) + tuple(leaves)

        with recording():
            jx = jax.make_jaxpr(wrapped)(*avals)
        p = Path()
        p.jaxpr, p.decisions, p.nconds = jx, tuple(ex.decisions), len(ex.conds)
        p.treedef, p.raised = info["tree"], info["raised"]
        paths.append(p)
        if len(paths) > max_paths:
            raise RuntimeError("too many paths")
        for k in range(len(prefix), len(ex.decisions)):
            work.append(tuple(ex.decisions[:k]) + (False,))
    return paths
