"""The on-disk derivative cache is transparent: whatever state it is in, outcomes are those of an empty cache."""
import json
import os
import pathlib
import random
import shutil
import signal
import stat
import subprocess
import time

from vlib import glmgen, rawgen
from vlib.common import PY, REPO, VERIF

NOBODY = 65534


def env(tmp, **kw):
    e = dict(os.environ, TMPDIR=tmp, PYTHONPATH=os.path.join(REPO, "src") + os.pathsep + VERIF, PYTHONDONTWRITEBYTECODE="1")
    e.update(kw)
    return e


def start(files, tmp, infeas=False, **kw):
    # the result comes back through a pipe, so that file size limits do not touch it
    return subprocess.Popen([PY, "-m", "vlib.onesolve"] + (["--infeas"] if infeas else []) + files, cwd=VERIF, env=env(tmp, **kw),
                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)


def finish(p, timeout=200):
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None
    for line in out.decode().splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    return None


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if set(x) != set(y):
            return False
        if "error" in x:
            if x["error"] != y["error"]:
                return False
        elif x["ok"] != y["ok"] or x["it"] != y["it"] or len(x["v"]) != len(y["v"]) or \
                any(abs(p - q) > 1e-9 * max(1.0, abs(p)) for p, q in zip(x["v"], y["v"])):
            return False
    return True


def brief(r):
    if r is None:
        return "no result (crash or hang)"
    return [x.get("error") and (x["error"] + " " + x["tb"][-300:]) or f"success={x['ok']} iterations={x['it']} v[0:3]={x['v'][:3]}" for x in r]


def cache_files(tmp):
    return sorted(str(p) for p in pathlib.Path(tmp).rglob("*") if p.is_file())


def damage(rng, tmp, ctx):
    """make cached files unusable; never turn one into a different well-formed cache entry"""
    fs = cache_files(tmp)
    done = []
    for f in fs:
        if rng.random() < .25:
            continue
        n = os.path.getsize(f)
        how = rng.choice(["empty", "truncate", "truncate", "tail", "garbage", "text", "dir", "missing", "zeros"])
        done.append(how)
        ctx.count("damage_" + how)
        if how == "dir":
            os.remove(f)
            os.mkdir(f)
            continue
        if how == "missing":
            os.remove(f)
            continue
        with open(f, "rb") as h:
            d = h.read()
        if how == "empty":
            d = b""
        elif how == "truncate":
            d = d[:rng.randrange(max(1, n))]
        elif how == "tail":
            d = d[:max(0, n - rng.randint(1, 64))]
        elif how == "garbage":
            d = bytes(rng.randrange(256) for _ in range(rng.randint(1, 4000)))
            d = b"\xff" + d
        elif how == "text":
            d = b"not a cache entry\n" * 5
        elif how == "zeros":
            d = b"\0" * n
        with open(f, "wb") as h:
            h.write(d)
    return done


def cheap_net(rng):
    """a feeder without constant-power loads: its derivatives are quick to generate"""
    net = glmgen.random_net(rng, 2, 6, features={"zload": 1.0, "ll_load": 0.0, "ct": .5, "xfmr": .5, "cap": .5, "fuse": .3, "dd": 0.0})
    for l in net.loads:
        l["terms"] = {(k if k[0] != "S" else ("Z", k[1])): (v if k[0] != "S" else (2.0 * l["nom"] ** 2 / v.conjugate() if v else 1e4 + 0j))
                      for k, v in l["terms"].items()}
    for nd in net.nodes.values():
        nd["power"] = {("impedance_" + c.split("_")[1]): (v if c.startswith("imp") else 14400.0 / v.conjugate())
                       for c, v in nd["power"].items()}
    return net


def cheap_raw(rng):
    c = rawgen.new_case()
    c["buses"] = [rawgen.bus(1, 3), rawgen.bus(2, 1), rawgen.bus(3, 1)]
    c["gens"] = [rawgen.gen(1, 0, 1.02)]
    c["branches"] = [rawgen.branch(1, 2, .01, .1, .05)]
    c["xfmrs"] = [rawgen.xfmr(2, 3, .001, .08, windv1=1.03, ang=rng.choice([0.0, 30.0, -5.0]))]
    c["fshunts"] = [{"i": 3, "id": "1", "status": 1, "gl": 20.0, "bl": rng.uniform(-20, 20)}]
    return c


def run_case(ctx):
    rng = ctx.rng
    kind = KINDS[ctx.index % len(KINDS)] if ctx.index >= 2 else "full"
    files = []
    if kind == "full":
        full(ctx, ctx.index)
        return
    files.append(ctx.write("a.glm", glmgen.write(cheap_net(rng), rng, {})))
    if rng.random() < .5:
        files.append(ctx.write("b.RAW", rawgen.write(cheap_raw(rng), rng.choice([33, 34]))))
    if rng.random() < .5:
        files.append(ctx.write("c.glm", glmgen.write(cheap_net(rng), rng, {})))
    ref_dir = ctx.path("ref")
    os.makedirs(ref_dir)
    ref = finish(start(files, ref_dir))
    if ref is None or any("error" in r for r in ref):
        ctx.violation("cold-run", f"with an empty cache directory: {brief(ref)}")
        return
    ctx.count("cold_runs")
    ctx.count("cache_files", len(cache_files(ref_dir)))
    ctx.sample(f"{kind}: {len(files)} files, cache of {len(cache_files(ref_dir))} entries")
    t = ctx.path("t")

    def check(what, got, key):
        ctx.count("runs_" + key)
        ctx.expect(got is not None and same(ref, got), key, lambda: f"{what}: {brief(got)}; with an empty cache: {brief(ref)}")

    if kind == "warm":
        check("second run on the same cache", finish(start(files, ref_dir)), "warm")
        check("third run, files in the opposite order", (finish(start(files[::-1], ref_dir)) or [])[::-1] or None, "warm")
    elif kind == "damaged":
        for n in range(2):
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(ref_dir, t)
            how = damage(rng, t, ctx)
            check(f"cache with damaged entries ({how})", finish(start(files, t)), "damaged")
            ctx.state("damaged", *sorted(set(how)))
        check("run after a run on a damaged cache", finish(start(files, t)), "damaged")
    elif kind == "concurrent":
        os.makedirs(t)
        n = rng.choice([3, 4, 6])
        ps = []
        for _ in range(n):
            ps.append(start(files, t))
            time.sleep(rng.choice([0, 0, rng.uniform(0, .5)]))
        for p in ps:
            check(f"one of {n} processes filling one cache together", finish(p), "concurrent")
        check("run on the cache they left", finish(start(files, t)), "concurrent")
        ctx.state("concurrent", n)
    elif kind == "killed":
        os.makedirs(t)
        for n in range(3):
            if rng.random() < .5:
                # killed in the middle of writing: the write that would take any file past the limit is fatal
                lim = rng.choice([64, rng.randrange(64, 4096), rng.randrange(64, 40000)])
                p = start(files, t, VERIF_FSIZE=str(lim), VERIF_FSIZE_KILL="1")
                r = finish(p)
                ctx.count("killed_in_write" if p.returncode == -signal.SIGXFSZ else "write_limit_not_reached")
            else:
                p = start(files, t)
                time.sleep(rng.uniform(.6, 3.5))
                p.send_signal(signal.SIGKILL)
                p.communicate()
                ctx.count("killed_at_random" if p.returncode == -9 else "finished_before_kill")
            ctx.state("killed", n, len(cache_files(t)))
        check("run on the cache killed processes left", finish(start(files, t)), "killed")
        check("second run on it", finish(start(files, t)), "killed")
    elif kind == "unwritable":
        os.makedirs(t)
        mode = rng.choice(["limit", "readonly", "readonly-warm"])
        if mode == "limit":
            lim = rng.choice([64, 100, rng.randrange(64, 30000)])
            check(f"cache writes fail beyond {lim} bytes", finish(start(files, t, VERIF_FSIZE=str(lim))), "unwritable")
        else:
            if mode == "readonly-warm":
                shutil.rmtree(t)
                shutil.copytree(ref_dir, t)
                for f in cache_files(t):
                    if rng.random() < .5:
                        os.remove(f)
                    else:
                        os.chmod(f, rng.choice([0o444, 0o000]))
            sub = [p for p in pathlib.Path(ref_dir).iterdir() if p.is_dir()]
            for s in sub:
                os.makedirs(os.path.join(t, s.name), exist_ok=True)
                os.chmod(os.path.join(t, s.name), 0o555)
            os.chmod(t, 0o777)          # (the temporary directory itself stays usable)
            d = t
            while d != "/tmp" and len(d) > 4:
                os.chmod(d, os.stat(d).st_mode | stat.S_IXOTH | stat.S_IROTH)
                d = os.path.dirname(d)
            for f in files:
                os.chmod(f, 0o644)
            check(f"cache directory not writable by the user ({mode})", finish(start(files, t, VERIF_UID=str(NOBODY))), "unwritable")
        ctx.state("unwritable", mode)
        check("run with the directory writable again", finish(start(files, t)), "unwritable")
    ctx.state(kind, len(files))


KINDS = ["warm", "damaged", "concurrent", "killed", "unwritable", "damaged", "killed", "concurrent"]


def full(ctx, which):
    """networks with every kind of element, constant-power loads and machines included"""
    rng = ctx.rng
    t = ctx.path("full")
    os.makedirs(t)
    files = [ctx.write("a.RAW", rawgen.write(rawgen.random_case(rng, 6, 8, features={"pv": .6})[0], 33))] if which == 0 else \
        [ctx.write("a.glm", glmgen.tiny_case())]
    a = finish(start(files, t))
    b = finish(start(files, t))
    ctx.count("runs_full", 2)
    ctx.expect(a is not None and not any("error" in r for r in a), "cold-run", lambda: f"with an empty cache directory: {brief(a)}")
    ctx.expect(b is not None and a is not None and same(a, b), "warm", lambda: f"second run on the same cache: {brief(b)}; first: {brief(a)}")
    if a is not None:
        damage(rng, t, ctx)
        c = finish(start(files, t))
        ctx.count("runs_full")
        ctx.expect(c is not None and same(a, c), "damaged", lambda: f"run on a damaged cache: {brief(c)}; first: {brief(a)}")
    ctx.state("full", which)
