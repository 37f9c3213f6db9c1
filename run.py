#!/usr/bin/env python3
"""Runs one check:  run.py <property id>     (VERIF_SEED, VERIF_TIER from the environment)
Other modes:         run.py --setup            pre-build every harness
                     run.py --replay FILE      re-run a replay file
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import importlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GENEX_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
NPROC = os.cpu_count() or 4
WORKERS = 8

sys.path.insert(0, VERIF)
sys.path.insert(0, HARNESS)
from checks import CHECKS  # noqa: E402

FLAVORS = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-ftrivial-auto-var-init=pattern"],
    "plain": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
    "fuzz": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link,address,undefined",
             "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
}
LIBS = ["-lboost_serialization", "-lboost_iostreams", "-lz", "-pthread"]

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                       "hard_rss_limit_mb=3000:handle_abort=1:detect_stack_use_after_return=0:"
                       "alloc_dealloc_mismatch=1:quarantine_size_mb=32:malloc_context_size=10")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:second_deadlock_stack=1"


class CheckError(Exception):
    """The check itself could not give an answer."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


# ---------------------------------------------------------------- building

def repo_sources():
    out = sorted(glob.glob(REPO + "/genex/**/*.cpp", recursive=True))
    if not out:
        raise CheckError("no sources in %s/genex" % REPO)
    return out


def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def repo_headers():
    return sorted(f for ext in ("hpp", "h") for f in
                  glob.glob(REPO + "/genex/**/*." + ext, recursive=True))


def compile_one(cmd):
    """Sources of /repo may come to need a later language standard than the harness expects."""
    first = sh(cmd)
    if first.returncode != 0:
        for std in ("c++17", "c++20"):
            r = sh([("-std=" + std) if a.startswith("-std=") else a for a in cmd])
            if r.returncode == 0:
                return r
    return first


def compile_cached(job):
    """job: (command without output, source); the object is kept under the hash of the preprocessed text"""
    cmd, src = job
    pre = subprocess.run(cmd + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    h = hashlib.sha256(repr((cmd, src)).encode())
    h.update(pre.stdout if pre.returncode == 0 else os.urandom(16))
    obj = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    if os.path.exists(obj):
        return obj
    tmp = "%s.%d" % (obj, os.getpid())
    r = compile_one(cmd + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        raise CheckError("cannot compile: %s\n%s" % (" ".join(r.args), r.stdout[-4000:]))
    os.replace(tmp, obj)
    return obj


def build(name, sources, flavor, std="c++14", extra=(), link=(), deps=(), more_flags=(), plan=None):
    """Compiles harness sources together with the library sources of /repo; returns the binary.
    With a plan (a list), only adds the compilations that are needed to it."""
    cxx = "clang++" if flavor == "fuzz" else "g++"
    flags = FLAVORS[flavor] + list(extra)
    hs = [os.path.join(HARNESS, s) if not s.startswith("/") else s for s in sources]
    hdr = sorted(glob.glob(HARNESS + "/*.hpp"))
    dep = sorted(f for d in deps for f in glob.glob(os.path.join(REPO, d), recursive=True))
    key = digest(hs + hdr + dep + repo_sources() + repo_headers(), (cxx, flags, std, link, more_flags))
    os.makedirs(BUILD + "/obj", exist_ok=True)
    final = os.path.join(BUILD, "%s-%s-%s" % (name, flavor, key))
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(final):
            return final
        jobs = [([cxx, "-std=c++11", "-w", "-pthread"] + FLAVORS[flavor] + ["-I" + REPO + "/genex"], s)
                for s in repo_sources()]
        jobs += [([cxx, "-std=" + std, "-w", "-pthread"] + flags + (list(more_flags) if s.startswith(REPO) else []) +
                  ["-I" + HARNESS, "-I" + REPO + "/genex", "-I" + REPO], s) for s in hs]
        if plan is not None:
            plan += jobs
            return None
        with cf.ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(compile_cached, jobs))
        lf = list(flags)
        if flavor == "fuzz":
            lf = [f.replace("fuzzer-no-link", "fuzzer") for f in lf]
        tmp = "%s.%d" % (final, os.getpid())
        r = sh([cxx] + lf + ["-o", tmp] + objs + list(link) + LIBS)
        if r.returncode != 0:
            raise CheckError("cannot link: %s" % r.stdout[-4000:])
        os.replace(tmp, final)
        return final


# ---------------------------------------------------------------- running C++ harnesses

def read_rec(path):
    with open(path, "rb") as f:
        data = f.read()
    case, n, active = struct.unpack_from("<QQQ", data, 0)
    n = min(n, (len(data) - 24) // 8)
    return case, active, list(struct.unpack_from("<%dQ" % n, data, 24))


def build_cfg(cfg, flavor=None, extra=(), plan=None):
    # source files of a program under test other than the library
    more = sorted(f for g in cfg.get("with", ()) for f in glob.glob(os.path.join(REPO, g), recursive=True))
    extra = tuple(extra) + tuple(cfg.get("extra", ()))
    for name, pattern in cfg.get("find", {}).items():
        # where a header of /repo lives
        at = [f for f in repo_headers() if re.search(pattern, open(f, errors="replace").read())]
        if at:
            extra += ("-D%s=\"%s\"" % (name, at[0]),)
    last = None
    for e in ((), ("-DPBT_FALLBACK",)) if cfg.get("fallback") else ((),):
        try:
            return build(cfg["id"], list(cfg["sources"]) + more, flavor or cfg.get("flavor", "asan"),
                         extra=extra + e, link=cfg.get("link", ()), deps=cfg.get("deps", ()),
                         more_flags=cfg.get("with_flags", ()), plan=plan)
        except CheckError as err:
            last = last or err
    raise last


def write_choices(path, choices, head=""):
    with open(path, "w") as f:
        f.write(head)
        f.write("choices: " + " ".join(map(str, choices)) + "\n")


class Cpp:
    """Replays choice sequences with one harness binary."""

    def __init__(self, cfg, binary, scratch):
        self.cfg, self.binary, self.scratch = cfg, binary, scratch
        self.n = 0
        self.limit = cfg.get("replay_timeout", 150)

    def replay(self, choices, describe=False):
        """returns (failed, text); failed is None if the replay could not be judged"""
        self.n += 1
        d = tempfile.mkdtemp(dir=self.scratch, prefix="r")
        try:
            write_choices(d + "/c", choices)
            cmd = [self.binary, "replay", "--dir", d + "/w", "--file", d + "/c"]
            if describe:
                cmd += ["--describe", "1"]
            try:
                r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV,
                                   cwd=d, timeout=self.limit, text=True, errors="replace")
            except subprocess.TimeoutExpired as e:
                return None, "replay timed out"
            if r.returncode in (64, 65):
                return None, r.stderr
            return r.returncode != 0, summarise(r.returncode, r.stderr)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def summarise(code, err):
    keep = err[-6000:]
    if code < 0:
        keep += "\nkilled by signal %s" % signal.Signals(-code).name
    elif code == 42:
        keep += "\nthe case did not terminate within its CPU limit"
    return keep


def shrink(replayer, choices, budget_s, log=None):
    """Greedy shrinking of a failing choice sequence, candidates tried in parallel batches."""
    t0 = time.time()
    best = list(choices)

    def fails(c):
        f, _ = replayer.replay(c)
        return bool(f)

    def better(a, b):
        return (len(a), a) < (len(b), b)

    def try_batch(cands):
        nonlocal best
        cands = [c for c in cands if better(c, best)]
        for i in range(0, len(cands), WORKERS):
            if time.time() - t0 > budget_s:
                return False
            part = cands[i:i + WORKERS]
            with cf.ThreadPoolExecutor(WORKERS) as ex:
                res = list(ex.map(fails, part))
            good = [c for c, r in zip(part, res) if r]
            if good:
                best = min(good, key=lambda c: (len(c), c))
                return True
        return False

    improved = True
    while improved and time.time() - t0 < budget_s:
        improved = False
        # cut tails
        cands = []
        n = len(best)
        k = n // 2
        while k >= 1:
            cands.append(best[:n - k])
            k //= 2
        while cands and try_batch(cands):
            improved = True
            n = len(best)
            cands = []
            k = n // 2
            while k >= 1:
                cands.append(best[:n - k])
                k //= 2
        # delete chunks
        for size in (64, 32, 16, 8, 4, 2, 1):
            i = 0
            while i < len(best) and time.time() - t0 < budget_s:
                cands = [best[:j] + best[j + size:] for j in range(i, min(i + WORKERS * size, len(best)), size)]
                if try_batch(cands):
                    improved = True
                else:
                    i += WORKERS * size
        # lower values
        for i in range(len(best)):
            if time.time() - t0 > budget_s:
                break
            if i >= len(best):
                break
            v = best[i]
            if v == 0:
                continue
            cands = []
            for w in {0, 1, v // 2, v - 1, v // 16, v - v // 8}:
                if 0 <= w < v:
                    cands.append(best[:i] + [w] + best[i + 1:])
            cands.sort()
            if try_batch(cands):
                improved = True
    return best


def confirm(replayer, choices, flaky):
    """A failure counts when it reproduces; three times out of three for deterministic code."""
    tries = 40 if flaky else 3
    with cf.ThreadPoolExecutor(1 if flaky else 3) as ex:
        res = []
        for r in ex.map(lambda _: replayer.replay(choices), range(tries)):
            res.append(r)
            if flaky and r[0]:
                return True, r[1]
    bad = [t for f, t in res if f]
    if flaky:
        return bool(bad), (bad[0] if bad else "")
    return len(bad) == len(res), (bad[0] if bad else "")


def run_cpp(cfg, seed, tier, scratch):
    binary = build_cfg(cfg)
    total = cfg[tier + "_cases"]
    cap = cfg.get(tier + "_cap", 150 if tier == "quick" else 600)
    workers = cfg.get("workers", WORKERS)
    procs = []
    for w in range(workers):
        out = "%s/w%d" % (scratch, w)
        cmd = [binary, "run", "--dir", out + ".d", "--seed", str(seed), "--worker", str(w),
               "--cases", str(max(1, total // workers)), "--secs", str(cap), "--out", out]
        err = open(out + ".err", "w")
        procs.append((w, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=ENV,
                                          cwd=scratch, start_new_session=True)))
        err.close()
    failed = None
    deadline = time.time() + cap + 240
    alive = list(procs)
    try:
        while alive and failed is None:
            time.sleep(0.05)
            for w, p in list(alive):
                c = p.poll()
                if c is None:
                    continue
                alive.remove((w, p))
                if c != 0:
                    failed = (w, c)
                    break
            if time.time() > deadline:
                raise CheckError("workers did not finish")
    finally:
        for w, p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
    if failed:
        w, code = failed
        out = "%s/w%d" % (scratch, w)
        if code in (64, 65):
            raise CheckError("harness error: " + open(out + ".err").read()[-2000:])
        case, active, choices = read_rec(out + ".rec")
        text = ""
        if os.path.exists(out + ".fail"):
            text = open(out + ".fail").read()
        text += summarise(code, open(out + ".err").read())
        return {"failure": dict(worker=w, case=case, choices=choices, code=code, text=text),
                "binary": binary}
    return {"stats": [json.load(open("%s/w%d.json" % (scratch, w))) for w in range(workers)],
            "hashes": ["%s/w%d.hashes" % (scratch, w) for w in range(workers)], "binary": binary}


def rerun_prefix(cfg, binary, seed, worker, upto, scratch, start=0):
    """Re-runs a worker's cases start..upto in one process (for failures that need history)."""
    d = tempfile.mkdtemp(dir=scratch, prefix="p")
    try:
        cmd = [binary, "run", "--dir", d + "/w", "--seed", str(seed), "--worker", str(worker),
               "--cases", str(upto + 1), "--secs", "100000", "--out", d + "/o"]
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=ENV, cwd=d,
                           text=True, errors="replace", timeout=900)
        if r.returncode == 0:
            return False, ""
        txt = open(d + "/o.fail").read() if os.path.exists(d + "/o.fail") else ""
        return True, txt + summarise(r.returncode, r.stderr)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- libFuzzer stage (thorough)

def run_fuzz(cfg, seed, scratch, secs):
    """Coverage-guided search over the same property; returns choices of a failing case or None."""
    binary = build_cfg(cfg, "fuzz", ("-DPBT_LIBFUZZER",))
    procs = []
    for w in range(WORKERS):
        d = "%s/fz%d" % (scratch, w)
        os.makedirs(d + "/corpus")
        os.makedirs(d + "/tmp")
        env = dict(ENV, PBT_SCRATCH=d + "/tmp", PBT_FAIL_OUT=d + "/fail")
        cmd = [binary, d + "/corpus", "-seed=%d" % ((seed * 8 + w) % 2147483646 + 1),
               "-max_total_time=%d" % secs, "-max_len=4096", "-len_control=20", "-artifact_prefix=" + d + "/",
               "-rss_limit_mb=3000", "-timeout=300", "-print_final_stats=1", "-use_value_profile=%d" % (w % 2)]
        log = open(d + "/log", "w")
        procs.append((w, d, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=log, env=env, cwd=d)))
        log.close()
    execs = 0
    cov = 0
    found = None
    for w, d, p in procs:
        try:
            p.wait(timeout=secs + 400)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log = open(d + "/log", errors="replace").read()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
        if m:
            execs += int(m.group(1))
        for m in re.finditer(r"cov: (\d+)", log):
            cov = max(cov, int(m.group(1)))
        arts = [a for a in os.listdir(d) if a.startswith("crash-")]
        if (arts or os.path.exists(d + "/fail")) and found is None:
            if os.path.exists(d + "/fail"):
                found = ("choices", open(d + "/fail").read())
            else:
                found = ("bytes", d + "/" + arts[0])
    return {"execs": execs, "edges": cov, "found": found}


# ---------------------------------------------------------------- results

def known_findings():
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def write_evidence(cfg, seed, tier, t0, cov, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": cfg["id"], "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": cov, "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    path = os.path.join(VERIF, "evidence", cfg["id"] + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def merge_stats(cfg, res):
    st = res["stats"]
    distinct = set()
    for h in res["hashes"]:
        with open(h, "rb") as f:
            data = f.read()
        distinct.update(struct.unpack("<%dQ" % (len(data) // 8), data))
    labels = {}
    for s in st:
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
    return {"evaluations": sum(s["evaluations"] for s in st),
            "discarded": sum(s["discarded"] for s in st),
            "distinct_nontrivial": len(distinct),
            "rule": cfg["rule"],
            "samples": [x for s in st for x in s["samples"]][:6],
            "classes": labels,
            "time_capped": any(s["capped"] for s in st)}


def report_violation(cfg, seed, tier, t0, head, choices, text, cov):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.replay" % (cfg["id"], seed))
    with open(path, "w") as f:
        f.write("property: %s\nseed: %d\ntier: %s\n%s" % (cfg["id"], seed, tier, head))
        f.write("choices: " + " ".join(map(str, choices)) + "\n")
        f.write("".join("# " + l + "\n" for l in text.splitlines()))
    write_evidence(cfg, seed, tier, t0, cov, 1)
    print(text[-3000:])
    print("VIOLATION property=%s replay=%s" % (cfg["id"], path))
    sys.stdout.flush()
    return 1


def check(pid):
    if pid not in CHECKS:
        raise CheckError("unknown property " + pid)
    cfg = dict(CHECKS[pid], id=pid)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="genex-%s-" % pid)
    try:
        if cfg.get("kind", "cpp") == "python":
            mod = importlib.import_module(cfg["module"])
            return mod.check(cfg, seed, tier, scratch, t0, sys.modules[__name__])
        return check_cpp(cfg, seed, tier, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_cpp(cfg, seed, tier, scratch, t0):
    res = run_cpp(cfg, seed, tier, scratch)
    flaky = cfg.get("flaky", False)
    rp = Cpp(cfg, res["binary"], scratch)
    fuzz = None
    if "failure" not in res and tier == "thorough" and cfg.get("fuzz_secs", 120):
        fuzz = run_fuzz(cfg, seed, scratch, cfg.get("fuzz_secs", 120))
        if fuzz["found"]:
            kind, val = fuzz["found"]
            if kind == "choices":
                ch = [int(x) for x in re.search(r"choices:([ \d]*)", val).group(1).split()]
            else:
                ch = bytes_to_choices(rp, val, scratch)
            res = {"failure": dict(worker=-1, case=-1, choices=ch, code=1, text=val), "binary": res["binary"]}
    if "failure" in res:
        f = res["failure"]
        cov = {"evaluations": max(1, f["case"] + 1), "distinct_nontrivial": 0, "rule": cfg["rule"], "samples": []}
        ok, text = confirm(rp, f["choices"], flaky)
        head = ""
        choices = f["choices"]
        if ok:
            hang = "does not terminate" in text or f["code"] == 42
            if not flaky and not hang:
                choices = shrink(rp, choices, float(os.environ.get("VERIF_SHRINK_S", cfg.get("shrink_s", 40))))
            good, text2 = confirm(rp, choices, flaky)
            if not good:
                choices = f["choices"]
            _, desc = (True, text) if hang else rp.replay(choices, describe=True)
            return report_violation(cfg, seed, tier, t0, head, choices, desc or text, cov)
        if f["worker"] >= 0:
            # The failure may need what earlier cases left behind in the process.
            again = [rerun_prefix(cfg, res["binary"], seed, f["worker"], f["case"], scratch)]
            if time.time() - t0 < 450:
                again.append(rerun_prefix(cfg, res["binary"], seed, f["worker"], f["case"], scratch))
            if all(a for a, _ in again) or (flaky and any(a for a, _ in again)):
                head = "prefix: worker %d cases 0..%d\n" % (f["worker"], f["case"])
                return report_violation(cfg, seed, tier, t0, head, choices, again[0][1] or f["text"], cov)
        raise CheckError("a failure did not reproduce: " + f["text"][-3000:])
    cov = merge_stats(cfg, res)
    if fuzz:
        cov["coverage_guided_executions"] = fuzz["execs"]
        cov["coverage_guided_edges"] = fuzz["edges"]
    for k in sorted(cov["classes"]):
        if k.startswith("KF:"):
            key = k[3:]
            known = known_findings()
            if (cfg["id"], key) in known:
                print("KNOWN-FINDING: property=%s %s" % (cfg["id"], known[(cfg["id"], key)]))
            else:
                return report_violation(cfg, seed, tier, t0, "finding: %s\n" % key, [],
                                        "unlisted finding " + key, cov)
    write_evidence(cfg, seed, tier, t0, cov, 0)
    print("%s %s seed %d: held on %d cases (%d distinct non-trivial) in %.1f s" %
          (cfg["id"], tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


def bytes_to_choices(rp, artifact, scratch):
    d = tempfile.mkdtemp(dir=scratch, prefix="b")
    subprocess.run([rp.binary, "replay", "--dir", d + "/w", "--bytes", artifact, "--rec", d + "/rec"],
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV, timeout=300)
    return read_rec(d + "/rec")[2]


def replay_file(path):
    txt = open(path).read()
    pid = re.search(r"property: (\S+)", txt).group(1)
    seed = int(re.search(r"seed: (\d+)", txt).group(1))
    cfg = dict(CHECKS[pid], id=pid)
    m = re.search(r"^choices:([ \d]*)$", txt, re.M)
    choices = [int(x) for x in m.group(1).split()]
    scratch = tempfile.mkdtemp(prefix="genex-replay-")
    try:
        if cfg.get("kind", "cpp") == "python":
            mod = importlib.import_module(cfg["module"])
            bad, text = mod.replay(cfg, choices, scratch, sys.modules[__name__])
        else:
            binary = build_cfg(cfg)
            m = re.search(r"prefix: worker (\d+) cases 0\.\.(\d+)", txt)
            if m:
                bad, text = rerun_prefix(cfg, binary, seed, int(m.group(1)), int(m.group(2)), scratch)
            else:
                bad, text = confirm(Cpp(cfg, binary, scratch), choices, cfg.get("flaky", False))
                _, text = Cpp(cfg, binary, scratch).replay(choices, describe=True)
        print(text)
        print("still fails" if bad else "does not fail")
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    cfgs = [dict(CHECKS[pid], id=pid) for pid in sorted(CHECKS)]
    plan = []
    for cfg in cfgs:
        build_cfg(cfg, plan=plan)
    jobs = [j for i, j in enumerate(plan) if j not in plan[:i]]

    def attempt(job):
        try:
            compile_cached(job)
        except CheckError:
            pass  # the check that needs it will say so, or do without

    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(attempt, jobs))
    for cfg in cfgs:
        build_cfg(cfg)
    print("setup done")
    return 0


def main():
    try:
        if sys.argv[1] == "--setup":
            return setup()
        if sys.argv[1] == "--replay":
            return replay_file(sys.argv[2])
        return check(sys.argv[1])
    except CheckError as e:
        print("CHECK-ERROR: %s" % e, file=sys.stderr)
        return 3


if __name__ == "__main__":
    sys.exit(main())
