#!/usr/bin/env python3
"""Measures the checks: mutates the code under test, one small change at a time,
and finds out which changes that pass the existing tests are told from the
original by the workloads, and which of those the specification rejects.

    mutate.py DIR [--files A,B] [--sample N] [--seed S] [--jobs J]

Works in copies of /repo under DIR (not under /verif or /repo), and appends to
DIR/results.jsonl.  Not a check: nothing registered uses it."""

import concurrent.futures as cf
import hashlib
import json
import os
import queue
import random
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

PROPS = ["C%02d" % n for n in range(1, 26)]
FILES = ["candidate.rs", "case_sensitivity.rs", "matched_ranges.rs", "metric.rs", "utils.rs", "normalize.rs",
         "metrics/fzf/candidate.rs", "metrics/fzf/distance.rs", "metrics/fzf/fzf.rs", "metrics/fzf/fzf_v1.rs",
         "metrics/fzf/fzf_v2.rs", "metrics/fzf/parser.rs", "metrics/fzf/query.rs", "metrics/fzf/scheme.rs",
         "metrics/fzf/scoring.rs", "metrics/fzf/slab.rs"]

SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" <= ", " >= "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "),
         (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "),
         (r" \+= ", " -= "), (r" -= ", " += "), (r" \+= ", " = "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
         (r"\.saturating_sub\(", ".wrapping_sub("), (r"\.\.=", ".."), (r"(?<=[\w)\]])\.\.(?=[\w(])", "..="),
         (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.rev\(\)", ""), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
         (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\bcontinue;", "{}"), (r"\bif (?!let)(.+?) \{$", r"if !(\1) {"),
         (r"\bif (?!let)(.+?) \{$", r"if (\1) || true {"), (r"\bif (?!let)(.+?) \{$", r"if (\1) && false {"), (r"!(?=[a-z(])", ""),
         (r"\.is_empty\(\)", ".len() == 1"), (r"\bpush\(", "insert(0, "), (r"\.find\(", ".rfind("), (r"\brfind", "find"),
         (r"to_ascii_lowercase", "to_ascii_uppercase"), (r"\.len_utf8\(\)", ".len_utf16()"), (r"\.is_ascii\(\)", ".is_alphanumeric()"),
         (r"is_lowercase\(\)", "is_alphabetic()"), (r"is_uppercase\(\)", "is_alphabetic()"), (r"\.unwrap_or\(", ".map(|_| Default::default()).unwrap_or(")]


def mutants(root, files):
    out = []
    for f in files:
        with open(os.path.join(root, "src", f)) as fh:
            lines = fh.read().split("\n")
        debug = False
        for n, l in enumerate(lines):
            if "Debug for" in l or "fn printed_width" in l or l.startswith(("pub(super) struct Rows", "impl Iterator for Rows", "impl Iterator for Cols")):
                debug = True
            if l in ("}", "    }"):
                debug = debug and l != "}" and "printed" not in lines[n - 8:n]
            if debug:
                continue
            if l.startswith("#[cfg(test)]") or l.startswith("mod tests"):
                break
            t = l.strip()
            if not t or t.startswith(("//", "#", "use ", "pub use ", "debug_assert", "assert")):
                continue
            body = l.split(" //")[0]
            for pat, rep in SWAPS:
                for m in re.finditer(pat, body):
                    if pat == r"!(?=[a-z(])" and m.start() and re.match(r"\w", body[m.start() - 1]):
                        continue
                    new = body[:m.start()] + m.expand(rep) + body[m.end():]
                    out.append((f, n, l, new))
            if f != "normalize.rs":
                for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.]*\d*['x])(?=[^\w]|$)", body):
                    v = int(m.group(1))
                    for w in {v + 1, max(v - 1, 0)} - {v}:
                        out.append((f, n, l, body[:m.start()] + str(w) + body[m.end():]))
            if re.match(r"^[\w.*\[\]()&:<>, |+]+(\(.*\)| [-+*]?= .*);$", t) and not t.startswith(("let ", "return", "type ", "pub ", "const ")):
                out.append((f, n, l, re.match(r"\s*", l).group() + ";"))
            m = re.match(r"^(\s*)return (.*);$", l)
            if m:
                out.append((f, n, l, m.group(1) + ";"))
            # two lines of statements exchanged
            if n + 1 < len(lines) and t.endswith(";") and lines[n + 1].strip().endswith(";") and "let" not in t and lines[n + 1].strip() != t:
                out.append((f, n, l + "\n" + lines[n + 1], lines[n + 1] + "\n" + l))
    return out


def run(cmd, cwd, env, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, preexec_fn=check.limits)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return -99, "", ""


def stable():
    with open("/opt/vp/BASELINE.json") as f:
        return json.load(f)


class Worker:
    def __init__(self, dir, k):
        self.repo = os.path.join(dir, "w%d" % k, "repo")
        self.tgt = os.path.join(dir, "w%d" % k, "target")
        self.har = os.path.join(dir, "w%d" % k, "verif", "harness")
        self.tmp = os.path.join(dir, "w%d" % k, "out")
        if not os.path.exists(self.repo):
            shutil.copytree("/repo", self.repo, ignore=shutil.ignore_patterns("target", ".git"))
        shutil.rmtree(self.har, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, "harness"), self.har, ignore=shutil.ignore_patterns("target"))
        shutil.rmtree(os.path.join(self.repo, "src"))
        shutil.copytree("/repo/src", os.path.join(self.repo, "src"), copy_function=shutil.copyfile)
        os.makedirs(self.tmp, exist_ok=True)
        self.env = dict(os.environ, CARGO_TARGET_DIR=self.tgt, CARGO_NET_OFFLINE="true", CARGO_BUILD_JOBS="2", CARGO_PROFILE_RELEASE_OPT_LEVEL="1")

    def conf(self):
        return run(["cargo", "build", "--release", "--offline"], self.har, self.env, 300)

    def tests(self):
        rc, out, _ = run(["cargo", "test", "--all-features", "--offline", "--lib", "--tests", "--", "--test-threads", "2"],
                         self.repo, self.env, 120)
        return rc == 0

    def traces(self, props, base=None):
        exe = os.path.join(self.tgt, "release", "conf")
        res = {}
        for p in props:
            out = os.path.join(self.tmp, p + ".ndjson")
            if os.path.exists(out):
                os.remove(out)
            rc, so, _ = run([exe, "gen", "--prop", p, "--seed", "1", "--tier", "quick", "--out", out], self.tmp, self.env, 240)
            if rc != 0:
                res[p] = "rc%d" % rc
                continue
            with open(out, "rb") as f:
                res[p] = hashlib.sha256(f.read()).hexdigest()[:16]
            if base and res[p] == base[p]:
                os.remove(out)
        return res


def judge(w, m, base):
    f, n, old, new = m
    path = os.path.join(w.repo, "src", f)
    with open(path) as fh:
        text = fh.read()
    lines = text.split("\n")
    k = old.count("\n") + 1
    assert "\n".join(lines[n:n + k]) == old
    mut = lines[:n] + new.split("\n") + lines[n + k:]
    r = {"file": f, "line": n + 1, "old": old.strip(), "new": new.strip()}
    try:
        with open(path, "w") as fh:
            fh.write("\n".join(mut))
        if not w.tests():
            return dict(r, what="fails tests")
        if w.conf()[0] != 0:
            return dict(r, what="doesn't build")
        t = w.traces(PROPS, base)
        diff = [p for p in PROPS if t[p] != base[p]]
        if not diff:
            return dict(r, what="SURVIVES")
        caught, missed = [], []
        for p in diff:
            if caught:  # once is enough
                break
            if t[p].startswith("rc"):
                caught.append(p)
                continue
            out = os.path.join(w.tmp, p + ".ndjson")
            d = os.path.join(w.tmp, "tlc")
            os.makedirs(d, exist_ok=True)
            try:
                rej = check.validate(d, "trace", p, out, workers=2)[2]
            except check.Broken as e:
                rej = None
                r.setdefault("broken", {})[p] = str(e)[-300:]
            (caught if rej else missed).append(p)
        return dict(r, what="caught" if caught else "DIFFERS", caught=caught, differs=missed)
    finally:
        with open(path, "w") as fh:
            fh.write(text)


def main():
    a = sys.argv[1:]
    dir = os.path.abspath(a[0])
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d  # noqa: E731
    files = opt("--files", ",".join(FILES)).split(",")
    jobs = int(opt("--jobs", "6"))
    rng = random.Random(int(opt("--seed", "1")))
    ms = mutants("/repo", files)
    rng.shuffle(ms)
    ms = ms[:int(opt("--sample", "100000"))]
    os.makedirs(dir, exist_ok=True)
    res = os.path.join(dir, "results.jsonl")
    done = set()
    if os.path.exists(res):
        for l in open(res):
            j = json.loads(l)
            done.add((j["file"], j["line"], j["old"], j["new"]))
    ms = [m for m in ms if (m[0], m[1] + 1, m[2].strip(), m[3].strip()) not in done]
    print(len(ms), "mutants", flush=True)
    ws = queue.Queue()
    first = Worker(dir, 0)
    assert first.conf()[0] == 0 and first.tests()
    base = first.traces(PROPS)
    assert base == first.traces(PROPS), "not deterministic"
    print(base, flush=True)
    ws.put(first)
    for k in range(1, jobs):
        ws.put(Worker(dir, k))

    def one(m):
        w = ws.get()
        try:
            return judge(w, m, base)
        finally:
            ws.put(w)

    with cf.ThreadPoolExecutor(jobs) as pool, open(res, "a") as out:
        for f in cf.as_completed([pool.submit(one, m) for m in ms]):
            r = f.result()
            out.write(json.dumps(r, ensure_ascii=False) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
