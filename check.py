#!/usr/bin/env python3
"""Decides the properties of properties.jsonl for the code in /repo.

    check.py setup             builds the harness
    check.py C07               checks a property (VERIF_TIER, VERIF_SEED)
    check.py replay FILE       executes a reported history again
    check.py selftest C07      falsified observations have to be rejected

A check has three legs, all of them about the specification in spec/:

  models      TLC checks the specification itself: the property's counterpart
              holds in every state of the models listed in models.py.
  behaviours  TLC generates behaviours of the specification (MC_*.tla), which
              the harness steps through the real code.
  traces      the harness drives the real code with workloads of its own, and
              then with some hundred times as many, of which it keeps the
              histories in which a transcription of the specification
              (harness/src/mirror.rs) doesn't agree with the real code.

What the real code did, in the last two, is checked by TLC against the
specification (TraceCheck.tla), event by event.

Exit status: 0 the property held on everything explored, 1 it is violated (and
a VIOLATION line is printed), 2 something is wrong with the check.
"""

import concurrent.futures as cf
import contextlib
import fcntl
import filecmp
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

import models

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NORM_REPO", "/repo")
WORK = os.path.join(HERE, ".work")
SPEC = os.path.join(HERE, "spec")
GB = 1 << 30
PART = 60 << 20  # the largest trace TLC is given at once, in bytes


class Broken(Exception):
    """The check can't answer."""


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------- build

def tree_hash():
    h = hashlib.sha256()
    roots = [(REPO, {"target", ".git"}), (os.path.join(HERE, "harness"), {"target"})]
    for root, skip in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in skip)
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def build():
    """Builds the harness against the working tree of /repo, and returns it:
    with the assertions and overflow checks of debug builds, and without.

    The build directory is named after the contents of the two, so that what
    is run is what is there, whatever the files' times say."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        name = "target-" + tree_hash()
        tgt = os.path.join(WORK, name)
        exes = [os.path.join(tgt, x, "conf") for x in ("release", "plain")]
        stamp = os.path.join(tgt, "ok")
        if not os.path.exists(stamp):
            old = sorted((x for x in os.listdir(WORK) if x.startswith("target-") and x != name),
                         key=lambda x: os.path.getmtime(os.path.join(WORK, x)))
            for x in old[:-3]:
                shutil.rmtree(os.path.join(WORK, x), ignore_errors=True)
            env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
            env.pop("RUSTFLAGS", None)
            man = os.path.join(HERE, "harness", "Cargo.toml")
            if REPO != "/repo":
                # For trying things out on a copy of the repository.
                alt = os.path.join(tgt, "harness")
                shutil.rmtree(alt, ignore_errors=True)
                shutil.copytree(os.path.join(HERE, "harness"), alt, ignore=shutil.ignore_patterns("target"))
                man = os.path.join(alt, "Cargo.toml")
                t = open(man).read().replace("../../repo", REPO)
                open(man, "w").write(t)
            cmd = ["cargo", "build", "--offline", "--manifest-path", man, "--profile"]
            ps = [subprocess.Popen(cmd + [x], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
                  for x in ("release", "plain")]
            errs = [p.communicate()[1] for p in ps]
            for p, err in zip(ps, errs):
                if p.returncode != 0:
                    raise Broken("the harness doesn't build:\n" + err[-4000:])
            open(stamp, "w").close()
        os.utime(tgt)
        return exes


# ----------------------------------------------------------------------- TLC

def cfg_text(m):
    o = ["SPECIFICATION " + m.get("spec", "Spec")]
    if m.get("consts"):
        o.append("CONSTANTS")
        for k, v in m.get("puts", {}).items():
            o.append("  %s <- %s" % (k, v))
        for k, v in m["consts"].items():
            o.append("  %s <- %s" % (k, v[2:]) if v.startswith("<-") else "  %s = %s" % (k, v))
    for kind in ("INVARIANTS", "PROPERTIES", "CONSTRAINTS", "ACTION_CONSTRAINTS", "VIEW", "SYMMETRY"):
        v = m.get(kind.lower())
        if v:
            o.append(kind + " " + (v if isinstance(v, str) else " ".join(v)))
    o.append("CHECK_DEADLOCK FALSE")
    return "\n".join(o) + "\n"


def tlc(dir, name, module, cfg, args=(), env=None, workers=4, timeout=600, heap=5):
    """Runs TLC, returning its exit status and its output."""
    d = os.path.join(dir, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    c = os.path.join(d, "model.cfg")
    with open(c, "w") as f:
        f.write(cfg)
    file = module if os.path.isabs(module) else os.path.join(SPEC, module + ".tla")
    jars = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
    cmd = ["java", "-Xmx%dg" % heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
           "-DTLA-Library=" + SPEC, "-cp", jars, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"),
           "-config", c, *args, file]
    out = os.path.join(d, "out.txt")
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})),
                               stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    with open(out, errors="replace") as f:
        return rc, f.read()


STATES = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", re.M)


def counts(text):
    m = STATES.findall(text)
    if not m:
        return 0, 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


def run_model(dir, n, m):
    t = time.time()
    rc, out = tlc(dir, "model%d" % n, m["module"], cfg_text(m), timeout=m.get("timeout", 700),
                  workers=m.get("workers", 4))
    gen, dist, left = counts(out)
    if rc != 0 or "No error has been found" not in out or left or not dist:
        raise Broken("model %s: rc %d\n%s" % (m["module"], rc, out[-3000:]))
    if dist < m.get("least", 2):
        raise Broken("model %s: only %d states" % (m["module"], dist))
    return {"module": m["module"], "constants": m.get("consts", {}),
            "invariants": m.get("invariants", []), "properties": m.get("properties", []),
            "states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)}


VIOLATED = re.compile(r"^Error: (?:Invariant|Action property|Temporal property) (\w+) (?:is|was) violated"
                      r"|^Error: The invariant of (\w+) is equal to FALSE", re.M)


def run_refuted(dir, n, m):
    """A model with a wrong definition, in which a counterexample is expected."""
    t = time.time()
    d = os.path.join(dir, "wrong%d" % n)
    os.makedirs(d)
    name = "Refuted%d" % n
    with open(os.path.join(d, name + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS %s\n====\n" % (name, ", ".join(dict.fromkeys((m["module"], m["where"])))))
    rc, out = tlc(dir, "refuted%d" % n, os.path.join(d, name + ".tla"), cfg_text(m), timeout=m.get("timeout", 700), workers=2)
    v = VIOLATED.search(out)
    if not v or (v.group(1) or v.group(2)) != m["refuted"]:
        raise Broken("model %s: %s isn't refuted, rc %d\n%s" % (m["module"], m["refuted"], rc, out[-3000:]))
    return {"module": m["module"], "instead": m["puts"] or {k: v for k, v in m["consts"].items() if v.startswith("<-")},
            "refuted": m["refuted"], "states": counts(out)[1], "wall_s": round(time.time() - t, 1)}


# ------------------------------------------------------------------- harness

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 * GB, 12 * GB))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def conf(exe, args, out, careful=None, most=None, timeout=400):
    env = dict(os.environ)
    spend = 150 if os.environ.get("VERIF_TIER") == "thorough" or "thorough" in sys.argv else 30
    for k, v in ("CONF_CAREFUL", careful), ("CONF_MOST", most), ("CONF_SPEND", str(spend)):
        env.pop(k, None)
        if v:
            env[k] = v
    try:
        r = subprocess.run([exe, *args, "--out", out], env=env, capture_output=True, text=True,
                           timeout=timeout, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        raise Broken("the harness didn't finish: " + " ".join(args))
    return r


# Calls on large texts: the most time a process spent in them, and how many it
# didn't make for that reason.
LARGE = {"seconds_at_most": 0, "skipped": 0}
LARGE_LOCK = threading.Lock()


def counted(r):
    last = [x for x in r.stdout.splitlines() if x.startswith("{")]
    st = json.loads(last[-1])
    with LARGE_LOCK:
        LARGE["seconds_at_most"] = max(LARGE["seconds_at_most"], st.get("spent", 0))
        LARGE["skipped"] += st.get("skipped", 0)
    return st


def drive(exe, args, out):
    """Runs the harness, so that what it did ends up in the file `out`.  If the
    code under test brings it down, that is an observation too."""
    most = None
    r = conf(exe, args, out)
    if r.returncode == 0:
        st = counted(r)
        if "slow" not in st:
            return st
        # It has to do without what is very large.
        most = "70000"
        r = conf(exe, args, out, most=most)
        if r.returncode == 0:
            return dict(counted(r), slow=True)
    if r.returncode > 0 and r.returncode != 101 and "memory allocation" not in r.stderr:
        raise Broken("harness: rc %d\n%s" % (r.returncode, r.stderr[-3000:]))
    if r.returncode == 101:
        raise Broken("harness: panic outside of the code under test\n%s" % r.stderr[-3000:])
    # Killed by a signal, or aborted: find the call which did it.
    pend = out + ".pending"
    r2 = conf(exe, args, out, careful=pend, most=most, timeout=800)
    if r2.returncode == 0 or not os.path.exists(pend):
        raise Broken("harness: rc %d, then %d\n%s" % (r.returncode, r2.returncode, r.stderr[-3000:]))
    shutil.copy(pend, out)
    return {"crash": r2.returncode}


def drive_both(exes, args, out, pool):
    """Runs both builds of the harness.  Returns the counts of the first, and
    the files with what they did: one if they did the same."""
    other = out + ".plain"
    f = pool.submit(drive, exes[1], args, other)
    st = drive(exes[0], args, out)
    f.result()
    if filecmp.cmp(out, other, shallow=False):
        os.remove(other)
        return st, [out]
    return st, [out, other]


# -------------------------------------------------------------------- traces

REJECT = re.compile(r'^<<"REJECT", (\d+), (\d+), "(\w+)", "(.*)">>$', re.M)


def chars(a):
    return "".join(chr(c) for c in a)


def unescape(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def readable(e):
    """An event with its strings decoded, for whoever reads it."""
    e = dict(e)
    for k in ("q", "c", "t", "qp", "qu", "qs", "qv", "qt", "cp", "cu", "cs"):
        if isinstance(e.get(k), list):
            e[k] = chars(e[k])
    return e


def size(path):
    """The number of sessions of a trace, of its events, and of its states."""
    n = ev = 0
    with open(path) as f:
        for line in f:
            n += 1
            ev += len(json.loads(line)["ev"])
    return n, ev, ev + n


def validate(dir, name, prop, path, workers=8, timeout=800):
    """Has TLC check a trace, in parts if it's large.  Returns its counts, and
    the rejection if any."""
    if os.path.getsize(path) <= PART:
        return validate_part(dir, name, prop, path, workers, timeout)
    parts, at = [], 0
    with open(path) as f:
        while True:
            ls = f.readlines(PART)
            if not ls:
                break
            q = os.path.join(dir, "%s-part%d.ndjson" % (name, len(parts)))
            with open(q, "w") as w:
                w.writelines(ls)
            parts.append((q, at))
            at += len(ls)
    gen = dist = 0
    rej = None
    with cf.ThreadPoolExecutor(2) as pool:
        fs = [pool.submit(validate_part, dir, "%s%d" % (name, n), prop, q, max(1, workers // 2), timeout)
              for n, (q, _) in enumerate(parts)]
        for f, (q, first) in zip(fs, parts):
            g, d, r = f.result()
            gen, dist = gen + g, dist + d
            if r and not rej:
                rej = dict(r, session=r["session"] + first)
                for x in fs:
                    x.cancel()
                break
    return gen, dist, rej


def validate_part(dir, name, prop, path, workers, timeout):
    rc, out = tlc(dir, name, "TraceCheck",
                  "SPECIFICATION TraceSpec\nINVARIANT Allowed\nCHECK_DEADLOCK FALSE\n",
                  env={"TRACE": path, "PROP": prop}, workers=workers, timeout=timeout, heap=7)
    rej = REJECT.findall(out)
    gen, dist, left = counts(out)
    if rej:
        # The least, for the sake of determinism.
        tr, i, p, js = min(rej, key=lambda x: (int(x[0]), int(x[1])))
        try:
            why = json.loads(unescape(js))
        except ValueError:
            why = {"raw": js}
        return gen, dist, {"session": int(tr), "event": int(i), "why": why}
    if rc != 0:
        raise Broken("trace validation: rc %d\n%s" % (rc, out[-3000:]))
    want = size(path)[2]
    if dist != want:
        raise Broken("trace validation: %d states, %d expected" % (dist, want))
    return gen, dist, None


def line(path, n):
    with open(path) as f:
        for k, l in enumerate(f, 1):
            if k == n:
                return json.loads(l)


def report(prop, tier, seed, path, rej):
    """Writes the history a rejection is about, and says so."""
    d = os.path.join(WORK, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%s-%d.json" % (prop, tier, seed))
    ev = line(path, rej["session"])["ev"][:rej["event"]]
    with open(f, "w") as fh:
        json.dump({"property": prop, "ev": ev, "rejected": rej["why"],
                   "readable": [readable(e) for e in ev[-6:]]}, fh, ensure_ascii=False, indent=1)
    log("the specification doesn't allow: " + json.dumps(readable(ev[-1]), ensure_ascii=False))
    w = rej["why"]
    if "query" in w:
        log("  query    " + " AND ".join(
            " OR ".join(("!" if t["inv"] else "") + t["kind"] + ":" + chars(t["text"]) for t in c) for c in w["query"]))
        log("  settings " + json.dumps(w["settings"]))
        log("  expected " + json.dumps(w["specified"]))
    log("VIOLATION property=%s replay=%s" % (prop, f))


# --------------------------------------------------------------------- check

def samples(path, rng, n=4):
    with open(path) as f:
        lines = f.readlines()
    o = []
    for l in rng.sample(lines, min(n, len(lines))):
        ev = json.loads(l)["ev"]
        o.append({"session": [readable(e) for e in ev[:6]], "events": len(ev)})
    return o


def behaviours(dir, n, b, seed):
    """Has TLC generate behaviours of the specification, one per line."""
    t = time.time()
    args = []
    if "num" in b:
        args = ["-simulate", "num=%d" % b["num"], "-depth", str(b["depth"] + 2), "-seed", str(seed * 7919 + n)]
    rc, out = tlc(dir, "mbt%d" % n, b["module"], cfg_text(b), args=args, workers=1,
                  timeout=b.get("timeout", 600), env=b.get("env"))
    got = re.findall(r'^"BEHAVIOUR (.*)"$', out, re.M)
    if rc != 0 or not got:
        raise Broken("behaviours %s: rc %d, %d behaviours\n%s" % (b["module"], rc, len(got), out[-2500:]))
    f = os.path.join(dir, "behaviours%d.ndjson" % n)
    seen = set()
    with open(f, "w") as fh:
        for g in got:
            if g not in seen:
                seen.add(g)
                fh.write('{"ev":' + unescape(g) + "}\n")
    gen, dist, _ = counts(out)
    return f, {"module": b["module"], "constants": b.get("consts", {}), "behaviours": len(seen),
               "states": dist, "wall_s": round(time.time() - t, 1)}


def check(prop, tier, seed):
    t0 = time.time()
    thorough = tier == "thorough"
    dir = os.path.join(WORK, "run", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(dir, ignore_errors=True)
    os.makedirs(dir)
    ms = models.MODELS.get(prop, {}).get(tier) or models.MODELS.get(prop, {}).get("quick", [])
    bs = models.BEHAVIOURS.get(prop, {}).get(tier) or models.BEHAVIOURS.get(prop, {}).get("quick", [])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking"}
    try:
        with contextlib.ExitStack() as stack:
            pool = stack.enter_context(cf.ThreadPoolExecutor(3))
            second = stack.enter_context(cf.ThreadPoolExecutor(1))
            third = stack.enter_context(cf.ThreadPoolExecutor(1))

            def trace_leg():
                exes = build()
                out = os.path.join(dir, "trace.ndjson")
                return exes, drive_both(exes, ["gen", "--prop", prop, "--seed", str(seed), "--tier", tier,
                                               "--spec", SPEC], out, second)

            def sift_leg(exes):
                """For each of the builds, and some seeds."""
                secs, times = (60, 4) if thorough else (8, 2)
                fs = []
                for k in range(times):
                    for b, exe in enumerate(exes):
                        out = os.path.join(dir, "sift%d-%d.ndjson" % (k, b))
                        args = ["sift", "--prop", prop, "--seed", str(seed * 1000 + 2 * k + b), "--secs", str(secs),
                                "--spec", SPEC]
                        fs.append((out, sifters.submit(drive, exe, args, out)))
                        if prop == "C25" and k == 0:
                            # The first calls of many processes.
                            args = ["first", "--seed", str(seed * 1000 + b), "--secs", str(secs)]
                            out = os.path.join(dir, "first%d.ndjson" % b)
                            fs.append((out, sifters.submit(drive, exe, args, out)))
                got = {"calls": 0, "sessions": 0, "kept": 0}
                for out, f in fs:
                    st = f.result()
                    for x in got:
                        got[x] += st.get(x, 0)
                return got, [out for out, _ in fs]

            sifters = stack.enter_context(cf.ThreadPoolExecutor(4))
            ft = pool.submit(trace_leg)
            fb = [pool.submit(behaviours, dir, n, b, seed) for n, b in enumerate(bs)]
            fm = [pool.submit(run_model, dir, n, m) for n, m in enumerate(ms)]
            fr = [pool.submit(run_refuted, dir, n, m) for n, m in enumerate(models.REFUTED[prop])]
            exes, (stats, paths) = ft.result()
            fs = third.submit(sift_leg, exes)
            mbt, extra = [], []
            for n, f in enumerate(fb):
                bf, info = f.result()
                out = os.path.join(dir, "replayed%d.ndjson" % n)
                st, outs = drive_both(exes, ["replay", "--in", bf], out, second)
                info["calls"] = st.get("calls", 0)
                mbt.append(info)
                extra += outs
            sifted, more = fs.result()
            # One trace for TLC to check, so that it starts once.
            whole = os.path.join(dir, "whole.ndjson")
            with open(whole, "w") as w:
                for p in more + extra + paths:
                    with open(p) as f:
                        shutil.copyfileobj(f, w)
            gen, dist, rej = validate(dir, "trace", prop, whole)
            if rej:
                for f in fm + fr:
                    f.cancel()
                report(prop, tier, seed, whole, rej)
            done = [] if rej else [f.result() for f in fm]
            wrong = [] if rej else [f.result() for f in fr]
        n, events, _ = size(whole)
        rng = random.Random(seed)
        ev["coverage"] = {
            "states": dist + sum(m["states"] for m in done),
            "transitions": gen + sum(m["transitions"] for m in done),
            "traces_validated_against_impl": n,
            "events_validated": events,
            "observed_by_workload": {k: stats[k] for k in ("calls", "matched", "panics") if k in stats},
            "disagreements_with_the_transcription": stats.get("odd", 0),
            "sifted": sifted,
            "large_calls": dict(LARGE),
            "builds_observed": 2,
            "generated_behaviours": mbt,
            "models": done,
            "wrong_models_refuted": wrong,
            "samples": samples(whole, rng),
        }
        ev["assumptions"] = models.ASSUMPTIONS
        if thorough and not rej:
            ev["coverage"]["falsified_observations"] = falsify(dir, prop, whole, seed)
        ev["violations"] = 1 if rej else 0
        ev["wall_s"] = round(time.time() - t0, 1)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        if not rej:
            log("%s holds: %d traces of %d events, %d behaviours, %d states of the models, %.0f s" % (
                prop, n, events, sum(b["behaviours"] for b in mbt), sum(m["states"] for m in done), ev["wall_s"]))
        return 1 if rej else 0
    finally:
        shutil.rmtree(dir, ignore_errors=True)


# ------------------------------------------------------------------ selftest

def spoil(prop, ev, rng):
    """Falsifies one observation of a session in a way the property forbids, or
    returns None if there is nothing to falsify in it."""
    ev = [json.loads(json.dumps(e)) for e in ev]
    calls = [k for k, e in enumerate(ev) if e["o"] in "drx" and e["r"][0] == 1]
    if prop == "C18":
        ks = [k for k, e in enumerate(ev) if e["o"] == "cmp" and e["x"] != e["y"]]
        if not ks:
            return None
        ev[rng.choice(ks)]["c"] = 0
        return ev
    if prop == "C19":
        ks = [k for k, e in enumerate(ev) if "r" in e]
        ev[rng.choice(ks)]["r"] = [2, 0]
        return ev
    if prop == "C06":
        # The first session's calls are all made again, with the same reply.
        ks = [k for k in calls if ev[k]["o"] == "x"
              and sum(e.get("c") == ev[k]["c"] and e.get("r") == ev[k]["r"] and e.get("b") == ev[k]["b"] for e in ev) > 2]
        if not ks:
            return None
        ev[rng.choice(ks)]["r"][1] += 1
        return ev
    if prop in ("C05", "C21"):
        ks = [k for k in calls if k and ev[k - 1].get("c") == ev[k].get("c")
              and ev[k - 1].get("s") == ev[k].get("s") and "r" in ev[k - 1]]
        if prop == "C21":
            ks = [k for k in calls if k and ev[k - 1]["o"] == "x" and len(ev[k - 1]["c"]) == len(ev[k]["c"])
                  and ev[k - 1]["r"] == ev[k]["r"]]
        if not ks:
            return None
        k = rng.choice(ks)
        ev[k]["r"][1] += 1
        return ev
    if prop in ("C02", "C03", "C22"):
        ks = [k for k in calls if ev[k].get("b") and ev[k]["o"] == "x"]
        if not ks:
            return None
        k = ks[-1]
        if prop == "C03":
            ev[k]["b"].append([0, 10 ** 6])
        else:
            ev[k]["b"].pop()
        return ev
    if prop == "C04":
        ks = [k for k, e in enumerate(ev) if e["o"] == "r" and e["r"][0] == 0]
        if not ks:
            return None
        ev[rng.choice(ks)]["b"].append([0, 1])
        return ev
    if prop == "C01":
        if not calls:
            return None
        k = rng.choice(calls)
        ev[k]["r"] = [0, 0]
        return ev
    if prop in ("C11", "C12"):
        if not calls:
            return None
        ev[calls[-1]]["r"][1] += 1
        return ev
    if not calls:
        return None
    ev[rng.choice(calls)]["r"][1] += 1
    return ev


def falsify(dir, prop, path, seed, want=6):
    rng = random.Random(seed)
    with open(path) as f:
        lines = f.readlines()
    rng.shuffle(lines)
    bad = []
    for l in lines:
        s = spoil(prop, json.loads(l)["ev"], rng)
        if s:
            bad.append(s)
        if len(bad) == want:
            break
    caught = 0
    for k, s in enumerate(bad):
        f = os.path.join(dir, "bad.ndjson")
        with open(f, "w") as fh:
            fh.write(json.dumps({"ev": s}) + "\n")
        if validate(dir, "bad", prop, f, workers=1)[2]:
            caught += 1
    if not bad or caught == 0:
        raise Broken("falsified observations are accepted (%d of %d rejected)" % (caught, len(bad)))
    return {"made": len(bad), "rejected": caught}


def main():
    os.chdir(HERE)
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    if a[0] == "setup":
        build()
        return 0
    if a[0] == "replay":
        with open(a[1]) as f:
            j = json.load(f)
        dir = os.path.join(WORK, "run", "replay-%d" % os.getpid())
        os.makedirs(dir, exist_ok=True)
        try:
            src, out = os.path.join(dir, "in.ndjson"), os.path.join(dir, "out.ndjson")
            with open(src, "w") as f:
                f.write(json.dumps({"ev": j["ev"]}) + "\n")
            for exe in build():
                drive(exe, ["replay", "--in", src], out)
                rej = validate(dir, "trace", j["property"], out, workers=1)[2]
                if rej:
                    report(j["property"], "replayed", seed, out, rej)
                    return 1
            log("allowed by the specification")
            return 0
        finally:
            shutil.rmtree(dir, ignore_errors=True)
    if a[0] == "selftest":
        dir = os.path.join(WORK, "run", "selftest-%d" % os.getpid())
        os.makedirs(dir, exist_ok=True)
        try:
            out = os.path.join(dir, "trace.ndjson")
            drive(build()[0], ["gen", "--prop", a[1], "--seed", str(seed), "--tier", "quick"], out)
            log(a[1], falsify(dir, a[1], out, seed))
            return 0
        finally:
            shutil.rmtree(dir, ignore_errors=True)
    return check(a[0], tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        log("ERROR: " + str(e))
        sys.exit(2)
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        sys.exit(2)
