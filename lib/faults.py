"""Faults injected by the shim into one command of a behaviour of Repo.tla."""
import os, shutil
import shimlib, snap
from snap import Dump


def dump_copy(p):
    """what another process would find, without touching the files"""
    src = os.path.join(p.w.repo, ".snapcd")
    dst = os.path.join(p.w.base, "dumpcopy")
    shutil.rmtree(dst, ignore_errors=True)
    if os.path.isdir(src):
        shutil.copytree(src, dst)
    return Dump(os.path.join(dst, "snapcd.db"))


def clean_run(p, a, o, d, shim, dirs, cls, tag="x"):
    """the step with its operations logged; returns (before dump, after dump, counted ops, saves, result, mismatches)"""
    os.makedirs(os.path.join(p.w.base, "cache"), exist_ok=True)      # the same operations every time
    s = p.save(os.path.join(p.w.base, "save-" + tag))
    before = p.prev
    log = os.path.join(p.w.base, "log-" + tag)
    p.w.extra = {"LD_PRELOAD": shim, "SHIM_DIRS": ":".join(dirs), "SHIM_LOG": log, "SHIM_CLASS": cls}
    ms = p.step(a, o, d)
    p.w.extra = {}
    s2 = p.save(os.path.join(p.w.base, "after-" + tag))
    recs, _ = shimlib.parse(log)
    os.unlink(log) if os.path.exists(log) else None
    ops = {}
    for r in recs:
        if r[1] not in ("close", "unlock"):
            ops.setdefault(r[0], r)
    return before, p.prev, ops, s, s2, ms


def run_with(p, a, s, env, shim, dirs, cls):
    p.load(s)
    p.w.extra = {"LD_PRELOAD": shim, "SHIM_DIRS": ":".join(dirs), "SHIM_CLASS": cls, "SHIM_NOSLEEP": "1"}
    p.w.extra.update(env)
    rng = p.rng.getstate()
    log = os.path.join(p.w.base, "log-fault")
    if os.path.exists(log):
        os.unlink(log)
    p.w.extra["SHIM_LOG"] = log
    r = p.do(a)
    p.rng.setstate(rng)
    p.w.extra = {}
    # the operation that was hit
    n = int((env.get("SHIM_FAIL") or env.get("SHIM_KILL") or "0").split(":")[0])
    r.hit = next((x for x in shimlib.parse(log)[0] if x[0] == n and x[1] not in ("close", "unlock")), None)
    return r


def cleanup(p, s, s2, after):
    p.load(s2)
    p.prev = after
    shutil.rmtree(s[0], ignore_errors=True)
    shutil.rmtree(s2[0], ignore_errors=True)


def args_of(p, a):
    """the command line of a model action (for running it under the scheduler)"""
    class Stop(Exception):
        pass
    got = {}
    real = p.w.run

    def grab(*x, **k):
        got["a"], got["k"] = x, k
        raise Stop()
    p.w.run = grab
    try:
        p.do(a)
    except Stop:
        pass
    finally:
        p.w.run = real
    return [str(y) for y in got["a"]], got["k"].get("excl", ())
