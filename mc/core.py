"""The harness: tasks run in forked children (so that a crash of the code under test is an observation, not the end of
the check), counters, comparison, violations with replay files, known findings, evidence."""
import base64
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

import numpy as np
import torch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOL_PER_TASK = int(os.environ.get("PHILMC_SHOW", 5))


# ---------------------------------------------------------------- encoding of values for replay files
def enc(v):
    if isinstance(v, torch.Tensor):
        w = v.detach().resolve_conj().resolve_neg().cpu().contiguous()
        d = dict(__t=str(w.dtype).split(".")[1], shape=list(v.shape))
        if w.dtype in (torch.half, torch.bfloat16):
            w = w.float()
        a = w.numpy()
        if a.size <= 64:
            d["data"] = [[float(z.real), float(z.imag)] for z in a.ravel()] if np.iscomplexobj(a) else a.ravel().tolist()
        else:
            d["b64"], d["np"] = base64.b64encode(a.tobytes()).decode(), str(a.dtype)
        return d
    if isinstance(v, np.ndarray):
        return enc(torch.from_numpy(np.ascontiguousarray(v)))
    if isinstance(v, (list, tuple)):
        return dict(__l=[enc(x) for x in v], tuple=isinstance(v, tuple))
    if isinstance(v, dict):
        return dict(__d={k: enc(x) for k, x in v.items()})
    if isinstance(v, np.generic):
        return v.item()
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return dict(__r=repr(v)[:500])


def dec(v):
    if isinstance(v, dict):
        if "__t" in v:
            dt = getattr(torch, v["__t"])
            if "b64" in v:
                a = np.frombuffer(base64.b64decode(v["b64"]), dtype=v["np"]).copy()
                return torch.from_numpy(a).to(dt).reshape(v["shape"])
            data = [complex(*z) for z in v["data"]] if dt.is_complex else v["data"]
            return torch.tensor(data, dtype=dt).reshape(v["shape"])
        if "__l" in v:
            x = [dec(z) for z in v["__l"]]
            return tuple(x) if v["tuple"] else x
        if "__d" in v:
            return {k: dec(z) for k, z in v["__d"].items()}
        return v.get("__r")
    return v


def short(v, n=160):
    if isinstance(v, torch.Tensor):
        s = f"{str(v.dtype)[6:]}{list(v.shape)}"
        if v.numel() <= 16:
            s += str(v.detach().resolve_conj().tolist())
        return s[:n]
    if isinstance(v, (tuple, list)):
        return "(" + ", ".join(short(x, n) for x in v) + ")"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k}={short(x, n)}" for k, x in v.items()) + "}"
    return repr(v)[:n]


# ---------------------------------------------------------------- comparison
def differs(exp, got, tol=None, dtype=True):
    """None if got is exp (exactly, or within tol relative to the largest expected value), otherwise what differs."""
    if isinstance(exp, (tuple, list)):
        if not isinstance(got, (tuple, list)):
            return f"expected {len(exp)} results, got one {type(got).__name__} {short(got)}"
        if len(exp) != len(got):
            return f"expected {len(exp)} results, got {len(got)}"
        for i, (e, g) in enumerate(zip(exp, got)):
            d = differs(e, g, tol, dtype)
            if d:
                return f"result {i}: {d}"
        return None
    if exp is None:
        return None if got is None else f"expected None, got {short(got)}"
    if isinstance(exp, np.ndarray):
        exp = torch.from_numpy(np.ascontiguousarray(exp))
    if not isinstance(exp, torch.Tensor):
        return None if exp == got and type(exp) is type(got) else f"expected {exp!r}, got {short(got)}"
    if not isinstance(got, torch.Tensor):
        return f"expected a tensor, got {short(got)}"
    if exp.shape != got.shape:
        return f"shape {list(got.shape)} instead of {list(exp.shape)}"
    if dtype and exp.dtype != got.dtype:
        return f"dtype {got.dtype} instead of {exp.dtype}"
    e, g = exp.detach().resolve_conj().resolve_neg(), got.detach().resolve_conj().resolve_neg()
    if e.dtype != g.dtype:
        t = torch.promote_types(e.dtype, g.dtype)
        e, g = e.to(t), g.to(t)
    if e.numel() == 0:
        return None
    if tol is None:
        if torch.equal(e, g):
            return None
        bad = (e != g)
    else:
        if torch.equal(e, g):
            return None
        scale = float(e.abs().max()) if e.numel() else 0.0
        bad = ~((e - g).abs() <= tol * max(1.0, scale))
        if not bool(bad.any()):
            return None
    idx = tuple(int(i) for i in bad.nonzero()[0])
    return f"{int(bad.sum())} of {e.numel()} values differ, first at {list(idx)}: {g[idx].item()} instead of {e[idx].item()}"


# ---------------------------------------------------------------- what one task reports
class Ctx:
    def __init__(self, prop, task, tier, seed):
        self.prop, self.task, self.tier, self.seed = prop, task, tier, seed
        self.count = {}
        self.distinct = set()
        self.nontrivial = 0
        self.samples = []
        self.viol = []
        self.nviol = 0
        self.api = None  # name of the function under test, for crashes
        self.current = None  # (fn, args) being executed, for crashes
        self.crash_file = None

    def add(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + int(n)

    def case(self, key=None, nontrivial=True, n=1):
        self.add("evaluations", n)
        if key is not None and nontrivial:
            self.distinct.add(hash(key))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def violation(self, what, case=None, finding=None):
        self.nviol += 1
        if len(self.viol) < MAX_VIOL_PER_TASK or finding is not None and all(v["finding"] != finding for v in self.viol):
            self.viol.append(dict(what=what, case=case, finding=finding, task=self.task))

    # -- calls of the code under test
    def call(self, fn, *a, **k):
        """(result, None) or (None, 'Type: message')."""
        try:
            return fn(*a, **k), None
        except (AssertionError, Exception) as e:  # noqa: whatever the code under test raises is an observation
            return None, f"{type(e).__name__}: {str(e)[:300]}"

    def check(self, name, kw, exp, tol=None, dtype=True, finding=None, note=None, args=()):
        """Calls philtorch function `name` and compares with exp; True when it agrees."""
        self.add("evaluations")
        got, err = self.call(resolve(name), *args, **kw)
        d = f"raised {err}" if err else differs(exp, got, tol, dtype)
        if d is None:
            return True
        self.violation(f"{name}({short(dict(kw), 90)}): {d}" + (f" [{note}]" if note else ""),
                       dict(fn=name, args=enc(tuple(args)), kw=enc(kw), expected=enc(exp), got=enc(got), error=err,
                            tol=tol, dtype=dtype, note=note), finding)
        return False


def resolve(name):
    import philtorch
    if name.startswith("ops."):
        return getattr(torch.ops.philtorch, name[4:])
    mod, _, attr = name.rpartition(".")
    import importlib
    m = importlib.import_module("philtorch" + ("." + mod if mod else ""))
    obj = getattr(m, attr)
    return obj.apply if isinstance(obj, type) and issubclass(obj, torch.autograd.Function) else obj


# ---------------------------------------------------------------- running tasks
def _child(prop, fn, name, params, tier, seed, path):
    ctx = Ctx(prop, dict(name=name, params=params), tier, seed)
    out = dict(error=None)
    try:
        fn(ctx, **params)
    except BaseException:
        out["error"] = traceback.format_exc()[-3000:]
    out.update(count=ctx.count, distinct=ctx.distinct, samples=ctx.samples, viol=ctx.viol, nviol=ctx.nviol)
    with open(path, "wb") as f:
        pickle.dump(out, f)


GRACE = 20  # seconds that running tasks get once a violation is known


def run_tasks(prop, tasks, tier, seed, jobs=8, limit=600, stop=None):
    """tasks: list of (name, fn, params). Every task runs in a forked child. Once stop(result) is true, no task is started any more; the result
    of a task that was not executed is None."""
    tmp = tempfile.mkdtemp(prefix="philmc-run-")
    queue = list(enumerate(tasks))
    running, results, stopped = {}, [None] * len(tasks), None
    while queue or running:
        while queue and len(running) < jobs:
            i, (name, fn, params) = queue.pop(0)
            path = os.path.join(tmp, f"{i}.pkl")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    if not os.environ.get("PHILMC_VERBOSE"):
                        os.dup2(devnull, 1)
                        os.dup2(devnull, 2)
                    _child(prop, fn, name, params, tier, seed, path)
                except BaseException:
                    code = 9
                os._exit(code)
            running[pid] = (i, time.time(), path)
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, (i, t0, _) in list(running.items()):
                if now - t0 > limit or stopped and now - stopped > GRACE:
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.01)
            continue
        if pid not in running:
            continue
        i, t0, path = running.pop(pid)
        name, fn, params = tasks[i]
        if stopped and time.time() - stopped > GRACE and not os.path.exists(path):
            continue
        if os.WIFSIGNALED(status) or not os.path.exists(path):
            late = time.time() - t0 > limit
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
            why = f"did not finish within {limit} s" if late else f"process ended by signal {sig}" if sig else \
                f"process ended with status {status}"
            results[i] = dict(error=None, count={}, distinct=set(), samples=[], nviol=1, crash=True, wall=time.time() - t0,
                              viol=[dict(what=f"{why} in {name}", case=None, finding=None,
                                         task=dict(name=name, params=params))])
        else:
            with open(path, "rb") as f:
                results[i] = pickle.load(f)
            results[i]["wall"] = time.time() - t0
            os.unlink(path)
        if stop and not stopped and stop(results[i]):
            stopped, queue = time.time(), []
    os.rmdir(tmp) if not os.listdir(tmp) else None
    return results
