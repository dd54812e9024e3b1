#!/usr/bin/env python3
"""Builds the monitors against /repo's working tree, runs them, and judges what they saw.

    check.py PROPERTY [quick|thorough]     one property, exit 0 (held) or 1 (VIOLATION line)
    check.py --replay FILE                 run one recorded violation again
    check.py --setup                       build everything that the checks build

Any other exit code means that the check could not do its work.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
TRIPLE = "x86_64-unknown-linux-gnu"
KNOWN = os.path.join(VERIF, "known_findings.txt")

# name: (crate, cargo arguments, environment, sub-directory of target/, where the binary is)
VARIANTS = {
    "chk": ("harness", [], {}, "", "debug/mon"),
    "rel": ("harness", ["--release"], {}, "", "release/mon"),
    "asan": (
        "harness",
        ["--features", "plainalloc", "--target", TRIPLE],
        {"RUSTFLAGS": "-Zsanitizer=address", "RUSTUP_TOOLCHAIN": "nightly"},
        "asan",
        TRIPLE + "/debug/mon",
    ),
    "tsan": (
        "harness",
        ["--features", "plainalloc", "--target", TRIPLE, "-Zbuild-std"],
        {
            "RUSTFLAGS": "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer",
            "RUSTUP_TOOLCHAIN": "nightly",
        },
        "tsan",
        TRIPLE + "/debug/mon",
    ),
    "miri": ("harness", ["--features", "plainalloc"], {"RUSTUP_TOOLCHAIN": "nightly"}, "miri", None),
    "tut-chk": ("tut", [], {}, "tut", "debug/tut"),
    "tut-rel": ("tut", ["--release"], {}, "tut", "release/tut"),
}

# Rowan breaks the experimental aliasing rules (Stacked and Tree Borrows) in ordinary use, which
# is documented as out of scope; everything else Miri checks is on.
MIRIFLAGS = "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks"

RUN_ENV = {
    "asan": {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:hard_rss_limit_mb=5000"},
    "tsan": {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_signal_unsafe=0:allocator_may_return_null=1:hard_rss_limit_mb=5000"},
}

# Cases per worker and a limit in seconds for quick; just a limit for thorough.
# property: {variant: (workers, quick cases per worker, quick seconds, thorough workers, thorough seconds)}
FUNC = lambda n: {"chk": (4, n, 60, 4, 420), "rel": (4, n * 2, 60, 4, 420)}
PLAN = {
    "C01": FUNC(9000),
    "C02": FUNC(9000),
    "C03": FUNC(9000),
    "C04": FUNC(9000),
    "C05": FUNC(9000),
    "C06": FUNC(9000),
    "C07": FUNC(9000),
    "C08": FUNC(9000),
    "C09": FUNC(9000),
    "C10": FUNC(9000),
    "C11": FUNC(9000),
    "C12": FUNC(9000),
    "C13": FUNC(9000),
    "C14": FUNC(9000),
    "C15": FUNC(9000),
    "C16": {
        "chk": (2, 2500, 60, 2, 420),
        "rel": (2, 4000, 60, 2, 420),
        "asan": (3, 1500, 60, 3, 420),
        "miri": (4, 400, 60, 6, 420),
    },
    "C17": FUNC(10000),
    "C18": {
        "chk": (2, 1500, 40, 2, 300),
        "rel": (2, 3000, 40, 2, 300),
        "tsan": (3, 800, 60, 3, 420),
        "miri": (5, 60, 60, 8, 420),
    },
    "C19": FUNC(6000),
    "C20": FUNC(12000),
    "C21": FUNC(9000),
    "C22": FUNC(9000),
    "C23": {"tut-chk": (4, 3000, 40, 4, 300), "tut-rel": (4, 5000, 40, 4, 300)},
}

RULES = {
    "C01": "random event sequences (builder calls, checkpoints, shared and unshared child vectors); non-trivial: more than one element; distinct by a hash of the events",
    "C02": "random batches of trees built through one cache, against trees built without; non-trivial: more than one element; distinct by a hash of all trees",
    "C03": "pairs of random trees, equal and mutated in one place; distinct by a hash of both and the place",
    "C04": "random green trees and functional edits; distinct by a hash of tree and edit",
    "C16": "random programs over the public interface, refused and unspecified calls included; distinct by a hash of the calls made",
    "C17": "random histories that end with everything dropped; distinct by a hash of tree and history",
    "C18": "threads working on shared trees; distinct by a hash of tree and observed order of the threads' events (distinct interleavings)",
    "C23": "random input texts and expressions; distinct by a hash of the input; non-trivial: not empty",
}
DEFAULT_RULE = (
    "random trees (every flavor: immutable, mutable, edited, detached, copied) and a random history or query on them, "
    "compared with a reference model; non-trivial: the tree has more than one element; distinct by a hash of tree and history"
)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def seed_value():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)


def base_env(extra=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_PROFILE", "CARGO_BUILD")) or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "MON_WRAP"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env.update(extra or {})
    return env


def target_of(variant):
    sub = VARIANTS[variant][3]
    return os.path.join(TARGET, sub) if sub else TARGET


def forget_rowan(variant):
    """Cargo compares times, not contents: make it look at /repo anew."""
    t = target_of(variant)
    for pat in ("*/.fingerprint/rowan-*", "*/*/.fingerprint/rowan-*", "*/*/*/.fingerprint/rowan-*",
                "*/.fingerprint/tut-*"):
        for d in glob.glob(os.path.join(t, pat)):
            shutil.rmtree(d, ignore_errors=True)


def build(variant):
    crate, args, env, _, binary = VARIANTS[variant]
    forget_rowan(variant)
    e = base_env(env)
    e["CARGO_TARGET_DIR"] = target_of(variant)
    if variant == "miri":
        # `run` builds; a run without a property ends at once
        e["MIRIFLAGS"] = MIRIFLAGS
        subprocess.run(["cargo", "miri", "setup"], env=e, cwd=os.path.join(VERIF, crate), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = ["cargo", "miri", "run", "--offline", *args, "--", "--prop", "C01", "--cases", "0", "--out", "-"]
    else:
        cmd = ["cargo", "build", "--offline", *args]
    t0 = time.time()
    p = subprocess.run(cmd, env=e, cwd=os.path.join(VERIF, crate), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        errs = [l for l in p.stdout.splitlines() if l.startswith("error") or "-->" in l]
        return variant, "\n".join(errs[:40]) + "\n" + p.stdout[-3000:], time.time() - t0
    if binary and not os.path.exists(os.path.join(target_of(variant), binary)):
        return variant, "no binary", time.time() - t0
    return variant, None, time.time() - t0


def build_all(variants):
    # variants that share a target directory and profile would only wait for each other
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(build, variants))
    bad = [(v, e) for v, e, _ in res if e]
    for v, e in bad:
        log(f"build of {v} failed:\n{e}")
    return not bad, {v: round(t, 1) for v, _, t in res}


def command(variant, args):
    if variant == "miri":
        return ["cargo", "miri", "run", "--offline", *VARIANTS[variant][1], "--", *args]
    return [os.path.join(target_of(variant), VARIANTS[variant][4]), *args]


def run_env(variant, miri_seed=0):
    e = base_env(RUN_ENV.get(variant))
    if variant == "miri":
        e.update(VARIANTS[variant][2])
        e["CARGO_TARGET_DIR"] = target_of(variant)
        e["MIRIFLAGS"] = f"{MIRIFLAGS} -Zmiri-seed={miri_seed}"
        # several may be started at once: the build is fresh, they only check that
    return e


class Proc:
    """One run of the monitor, with its output and its progress."""

    def __init__(self, variant, args, tag, miri_seed=0, cpu=None):
        self.variant, self.tag = variant, tag
        d = os.path.join(TARGET, "run")
        os.makedirs(d, exist_ok=True)
        self.base = os.path.join(d, tag)
        self.out, self.err, self.progress, self.res = (self.base + x for x in (".stdout", ".stderr", ".progress", ".json"))
        for f in (self.out, self.err, self.progress, self.res):
            if os.path.exists(f):
                os.remove(f)
        extra = ["--out", "-"] if variant == "miri" else ["--out", self.res, "--progress", self.progress]
        self.args = args

        def limit():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))

        self.t0 = time.time()
        self.killed = False
        with open(self.out, "wb") as o, open(self.err, "wb") as e:
            self.p = subprocess.Popen(command(variant, args + extra), env=run_env(variant, miri_seed), cwd=os.path.join(VERIF, VARIANTS[variant][0]),
                                      stdout=o, stderr=e, stdin=subprocess.DEVNULL, preexec_fn=limit, start_new_session=True)

    def at(self):
        """The case that is running (or was last)."""
        try:
            if self.variant == "miri":
                cases = re.findall(rb"^CASE (\d+)", open(self.err, "rb").read(), re.M)
                return int(cases[-1]) if cases else None
            s = open(self.progress).read().strip()
            return int(s) if s.isdigit() else None
        except OSError:
            return None

    def kill(self):
        self.killed = True
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def wait(self, stale, total):
        """Waits for the end. Ends it when one case takes more than `stale` seconds."""
        last, since = None, time.time()
        while True:
            try:
                self.p.wait(timeout=0.3)
                return
            except subprocess.TimeoutExpired:
                pass
            now = time.time()
            at = self.at()
            if at != last:
                last, since = at, now
            if now - since > stale or now - self.t0 > total:
                self.kill()
                return

    def result(self):
        try:
            if self.variant == "miri":
                for l in open(self.out, errors="replace"):
                    if l.startswith("RESULT "):
                        return json.loads(l[7:])
                return None
            return json.load(open(self.res))
        except (OSError, ValueError):
            return None

    def stderr(self):
        try:
            s = open(self.err, errors="replace").read()
        except OSError:
            return ""
        s = "\n".join(l for l in s.splitlines() if not l.startswith("CASE "))
        if self.variant == "miri":
            i = s.find("error:")
            # skip the compiler's own warnings
            s = s[i:] if i >= 0 else ""
        return s

    def verdict(self):
        """('ok'|'violations'|'crash'|'killed'|'lost', text)"""
        rc = self.p.returncode
        r = self.result()
        if self.killed:
            return "killed", "ended by the orchestrator"
        err = self.stderr()
        if r is not None and rc in (0, 1) and not (self.variant == "miri" and "Undefined Behavior" in err):
            return ("violations" if r["violations"] else "ok"), ""
        if rc == -signal.SIGKILL:
            return "lost", "ended by SIGKILL (memory?)"
        if "memory allocation of" in err and "failed" in err:
            return "lost", "out of memory"
        if rc in (-signal.SIGXCPU,):
            return "hang", "CPU time limit"
        if self.variant == "miri":
            if "Undefined Behavior" in err or "memory leaked" in err or "program aborted" in err or "abnormal termination" in err or "aborted execution" in err:
                return "crash", err[:3000]
            return "lost", f"Miri: exit {rc}: {err[:1500]}"
        if "MONITOR:" in err:
            return "crash", " ".join(l for l in err.splitlines() if "MONITOR:" in l)[:2000]
        if "AddressSanitizer" in err and "out-of-memory" not in err and "allocation-size-too-big" not in err:
            i = err.find("ERROR: AddressSanitizer")
            return "crash", err[max(0, i):][:3000]
        if "WARNING: ThreadSanitizer" in err:
            report = err[err.find("WARNING: ThreadSanitizer"):][:3500]
            if uses_fences():
                return "lost", f"ThreadSanitizer does not understand the fences in rowan, its report says nothing: {report[:300]}"
            return "crash", report
        if rc < 0:
            try:
                name = signal.Signals(-rc).name
            except ValueError:
                name = str(-rc)
            return "crash", f"ended by {name}: {err[-1500:]}"
        return "lost", f"exit {rc}: {err[-1500:]}"


def uses_fences():
    """ThreadSanitizer sees no synchronization in fences. Miri does, and decides alone then."""
    for f in glob.glob("/repo/src/**/*.rs", recursive=True):
        code = re.sub(r"//[^\n]*", "", open(f, errors="replace").read())
        if re.search(r"\bfence\s*\(", code):
            return True
    return False


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(.+?) what=(.+)$", l.strip())
            if m and m[1] == prop:
                out.append((re.compile(m[2]), m[3]))
    return out


def write_replay(prop, variant, seed, start, step, cases, flags, message):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{variant}-{seed}-{start}-{cases}.json")
    json.dump({"property": prop, "variant": variant, "seed": seed, "start": start, "step": step, "cases": cases, "flags": flags, "message": message},
              open(path, "w"), indent=1)
    return path


def single(prop, variant, seed, start, step, cases, flags, tag, cpu=150, miri_seed=0):
    a = ["--prop", prop, "--seed", str(seed), "--start", str(start), "--step", str(step), "--cases", str(cases), *flags]
    p = Proc(variant, a, tag, miri_seed=miri_seed, cpu=cpu)
    p.wait(600, 600)
    return p


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = seed_value()
        self.t0 = time.time()
        self.violations = []  # (message, replay)
        self.agg = {"cases": 0, "trivial": 0, "checks": 0, "counters": {}, "samples": []}
        self.sigs = set()
        self.per = {}
        self.notes = []
        self.lock = threading.Lock()
        self.stop = False

    def add(self, variant, r, partial=False):
        with self.lock:
            v = self.per.setdefault(variant, {"cases": 0, "checks": 0, "workers": 0, "cut_short": 0})
            v["workers"] += 1
            if r is None:
                return
            v["cases"] += r["cases"]
            v["checks"] += r["checks"]
            v["cut_short"] += bool(r["timed_out"])
            self.agg["cases"] += r["cases"]
            self.agg["trivial"] += r["trivial"]
            self.agg["checks"] += r["checks"]
            for k, n in r["counters"].items():
                self.agg["counters"][k] = self.agg["counters"].get(k, 0) + n
            self.sigs.update(variant + ":" + s if self.prop == "C18" else s for s in r["sigs"])
            for s in r["samples"]:
                if len(self.agg["samples"]) < 8:
                    self.agg["samples"].append(f"[{variant}] {s}")

    def report(self, message, replay):
        with self.lock:
            self.violations.append((message, replay))

    def worker(self, variant, w, n, cases, secs):
        prop = self.prop
        vi = list(VARIANTS).index(variant)
        seed = (self.seed * 64 + vi) % (1 << 62)
        flags = []
        if variant == "miri":
            flags += ["--tiny", "--no-special"]
        if self.tier == "thorough" and variant != "miri":
            flags += ["--thorough"]
        tag = f"{prop}-{variant}-{w}"
        args = ["--prop", prop, "--seed", str(seed), "--start", str(w), "--step", str(n), "--cases", str(cases), "--secs", str(secs), *flags]
        miri_seed = (seed + w) % (1 << 31)
        p = Proc(variant, args, tag, miri_seed=miri_seed)
        p.wait(stale=150 if variant != "miri" else secs + 100, total=secs + 240)
        kind, text = p.verdict()
        r = p.result()
        at = p.at()
        self.add(variant, r)
        if kind == "ok":
            return
        if kind == "violations":
            for v in r["violations"]:
                self.report(f"case {v['index']} ({variant}): {v['message']}", write_replay(prop, variant, seed, v["index"], n, 1, flags, v["message"]))
            return
        if kind == "crash":
            # Find out what it takes to see it again.
            tries = 3
            if at is not None:
                for t in range(tries):
                    q = single(prop, variant, seed, at, n, 1, flags, f"{tag}-again", miri_seed=miri_seed)
                    k, tx = q.verdict()
                    if k in ("crash", "violations"):
                        what = tx or "; ".join(v["message"] for v in (q.result() or {}).get("violations", []))
                        return self.report(f"case {at} ({variant}): {what}", write_replay(prop, variant, seed, at, n, 1, flags, what))
                    if prop != "C18":
                        break
            # It may need what came before, or a certain schedule.
            note = "seen once, in a sequence of cases" if at is not None else "seen once"
            count = (at - w) // n + 1 if at is not None else cases
            return self.report(f"cases {w}, {w + n}, … {at} ({variant}; {note}): {text}", write_replay(prop, variant, seed, w, n, count, flags, text))
        if kind in ("killed", "hang") and variant != "miri" and at is not None:
            # One case that does not come to an end? Its own CPU time decides.
            q = single(prop, variant, seed, at, n, 1, flags, f"{tag}-again", cpu=200)
            k, tx = q.verdict()
            if k == "hang":
                what = "a case that does not end within 200 s of CPU time"
                return self.report(f"case {at} ({variant}): {what}", write_replay(prop, variant, seed, at, n, 1, flags, what))
            if k in ("crash", "violations"):
                what = tx or "; ".join(v["message"] for v in (q.result() or {}).get("violations", []))
                return self.report(f"case {at} ({variant}): {what}", write_replay(prop, variant, seed, at, n, 1, flags, what))
        with self.lock:
            self.notes.append(f"worker {w} of {variant}: {kind}: {text[:800]}")
            if variant == "miri" and p.at() is not None:
                # it was cut short; what it completed still counts as observed
                v = self.per[variant]
                done = (at - w) // n
                v["cases"] += done
                self.agg["cases"] += done

    def run(self):
        prop = self.prop
        plan = PLAN[prop]
        ok, times = build_all(list(plan))
        if not ok:
            log(f"{prop}: the monitors could not be built, nothing was decided")
            return 2
        jobs = []
        for variant, (w, cases, secs, tw, tsecs) in plan.items():
            if self.tier == "thorough":
                w, cases, secs = tw, 1 << 40, tsecs
            jobs += [(variant, i, w, cases, secs) for i in range(w)]
        # the slow ones first, as many at once as there are cores
        jobs.sort(key=lambda j: ["miri", "tsan", "asan"].index(j[0]) if j[0] in ("miri", "tsan", "asan") else 9)
        with cf.ThreadPoolExecutor(max_workers=max(8, os.cpu_count() or 8)) as ex:
            list(ex.map(lambda j: self.worker(*j), jobs))
        return self.finish(times)

    def finish(self, times):
        prop = self.prop
        known = known_findings(prop)
        fresh, seen = [], []
        for message, replay in self.violations:
            hit = next((what for rx, what in known if rx.search(message)), None)
            (seen.append(hit) if hit else fresh.append((message, replay)))
        for rx, what in known:
            print(f"KNOWN-FINDING: property={prop} {what}")
        # A sanitizer may be of no use here (see the notes), the plain builds have to have worked.
        conclusive = self.agg["cases"] > 0 and all(self.per.get(v, {}).get("cases", 0) > 0 for v in PLAN[prop] if v not in ("miri", "tsan", "asan"))
        evidence = {
            "property": prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.agg["cases"],
                "distinct_nontrivial": len(self.sigs),
                "rule": RULES.get(prop, DEFAULT_RULE),
                "samples": self.agg["samples"],
                "oracle_checks": self.agg["checks"],
                "trivial": self.agg["trivial"],
                "observed": dict(sorted(self.agg["counters"].items())),
                "by_build": self.per,
                "inconclusive": self.notes,
            },
            "build_s": times,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
            "violation_details": [{"message": m[:3000], "replay": r} for m, r in fresh],
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(evidence, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
        for n in self.notes:
            log(f"{prop}: inconclusive: {n}")
        log(f"{prop}: {self.agg['cases']} cases ({len(self.sigs)} distinct), {self.agg['checks']} checks, {evidence['wall_s']} s; builds {times}")
        if fresh:
            for m, r in fresh[:6]:
                log(f"{prop}: {m[:2500]}")
            print(f"VIOLATION property={prop} replay={fresh[0][1]}", flush=True)
            return 1
        if not conclusive:
            log(f"{prop}: too little was observed to say anything: {self.per}")
            return 2
        return 0


def replay(path):
    r = json.load(open(path))
    ok, _ = build_all([r["variant"]])
    if not ok:
        return 2
    p = single(r["property"], r["variant"], r["seed"], r["start"], r["step"], r["cases"], r["flags"], "replay", cpu=250)
    kind, text = p.verdict()
    res = p.result()
    for v in (res or {}).get("violations", []):
        print(f"case {v['index']}: {v['message']}")
    if kind in ("crash", "hang"):
        print(text)
    if kind in ("violations", "crash", "hang"):
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print(f"not seen again ({kind})")
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        log(__doc__)
        return 64
    if a[0] == "--setup":
        ok, times = build_all(list(VARIANTS))
        log(f"built {times}")
        return 0 if ok else 2
    if a[0] == "--replay":
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return Check(a[0], "thorough" if tier == "thorough" else "quick").run()


if __name__ == "__main__":
    sys.exit(main())
