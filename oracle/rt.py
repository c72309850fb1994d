"""Run-time plumbing: imports the real gym_anm from /repo, with every outside effect stubbed."""
import builtins
import copy
import io
import logging
import math
import multiprocessing.process
import os
import sys
import warnings

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
np.seterr(all="ignore")

# No process is started, no connection opened and no file of /repo written by the code under test.
multiprocessing.process.BaseProcess.start = lambda self: None
multiprocessing.process.BaseProcess.terminate = lambda self: None
SENT = []  # (address, message) of every message sent by a client


class FakeWs:
    def __init__(self, address):
        self.address = address

    def send(self, msg):
        SENT.append((self.address, msg))

    def close(self, *a, **k):
        pass


class FakePage:
    status_code = 200


import requests
import webbrowser
import websocket

websocket.create_connection = lambda address, *a, **k: FakeWs(address)
requests.get = lambda *a, **k: FakePage()
webbrowser.open = lambda *a, **k: True
_open, _makedirs = builtins.open, os.makedirs


def _safe_open(file, mode="r", *a, **k):
    if isinstance(file, (str, bytes, os.PathLike)) and any(c in mode for c in "wax+"):
        f = os.path.abspath(os.fspath(file))
        if f.startswith(os.path.abspath(REPO) + os.sep):
            return io.StringIO() if "b" not in mode else io.BytesIO()
    return _open(file, mode, *a, **k)


builtins.open = _safe_open
os.makedirs = lambda p, *a, **k: None if os.path.abspath(p).startswith(REPO) else _makedirs(p, *a, **k)

import cvxpy as cp  # noqa: E402
import gym_anm  # noqa: E402
from gym_anm import ANMEnv  # noqa: E402
from gym_anm.simulator import Simulator  # noqa: E402

assert os.path.abspath(gym_anm.__file__).startswith(os.path.abspath(REPO) + os.sep), gym_anm.__file__


class Violation(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the property's precondition."""


def ok(cond, msg, **data):
    if not cond:
        raise Violation(msg + ("" if not data else " | " + ", ".join(f"{k}={short(v)}" for k, v in data.items())))


def short(v):
    s = repr(v)
    return s if len(s) < 400 else s[:400] + "..."


def near(a, b, tol=1e-9):
    a, b = complex(a), complex(b)
    if a == b:
        return True
    if any(math.isinf(x) or math.isnan(x) for x in (a.real, a.imag, b.real, b.imag)):
        return False
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def vnear(a, b, tol=1e-9):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))


class Scripted(ANMEnv):
    """An environment whose initial states and stochastic variables are given lists."""

    def __init__(self, network, observation="state", K=0, delta_t=0.5, gamma=0.9, lamb=100, aux_bounds=None,
                 costs_clipping=None, inits=(), nexts=(), **kw):
        self.inits, self.nexts = list(inits), list(nexts)
        self.n_next = self.n_init = 0
        super().__init__(network, observation, K, delta_t, gamma, lamb, aux_bounds, costs_clipping, **kw)

    def init_state(self):
        self.n_init += 1
        return self.inits[min(self.n_init, len(self.inits)) - 1]

    def next_vars(self, s_t):
        self.n_next += 1
        return self.nexts[min(self.n_next, len(self.nexts)) - 1]


def volts(sim):
    """Complex bus voltages as reported by the state."""
    m, a = sim.state["bus_v_magn"]["pu"], sim.state["bus_v_ang"]["rad"]
    return {i: complex(m[i] * math.cos(a[i]), m[i] * math.sin(a[i])) for i in m}


def snapshot(x):
    return copy.deepcopy(x)


def same(a, b):
    """Deep equality of plain data (arrays, dicts, lists, tuples), None and NaN included."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        return all(same(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a is b or (type(a) is type(b) and bool(a == b))
