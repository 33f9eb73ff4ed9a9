#!/usr/bin/env python3
"""Runtime-monitoring driver.

  run.py PROP [--tier quick|thorough] [--seed N]     run the check of one property
  run.py --replay FILE                               re-run one recorded case
  run.py --selftest                                  validate the reference model (setup_cmd)

Rebuilds /repo/src from the working tree under sanitizers, runs the workloads of the property while the
monitors (reference model, sanitizers, allocation balance) observe, and writes evidence/<PROP>.json.
exit 0: held on everything explored; 1: violation (VIOLATION line); 2: the check itself could not run.
"""
import sys, os, json, time, subprocess, tempfile, shutil, struct, re, argparse, glob, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

NCPU = min(8, os.cpu_count() or 1)
UB = ("undefined,float-divide-by-zero")
NOUB = "shift-base,nonnull-attribute,returns-nonnull-attribute,function,vptr"
COMMON = ["-g1", "-DUSE_STDONLY", "-I" + REPO + "/src", "-w", "-fno-omit-frame-pointer", "-fno-strict-aliasing"]
VARIANTS = {
    # name: (extra flags for library and harness, flags for the reference model, link flags)
    "asan": (["-O1", "-DVH_ASAN", "-fsanitize=address," + UB, "-fno-sanitize=" + NOUB, "-fno-sanitize-recover=all",
              "-ftrivial-auto-var-init=pattern"], ["-O2"], ["-fsanitize=address,undefined"]),
    "msan": (["-O1", "-DVH_MSAN", "-fsanitize=memory", "-fsanitize-memory-track-origins=1", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
             ["-O2", "-fsanitize=memory", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], ["-fsanitize=memory"]),
    "fast": (["-O2", "-DVH_FAST"], ["-O2"], []),
}


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    return p.returncode, p.stdout


def build(variant, files, bdir):
    """Compile library + reference + harness; returns path of the monitor executable."""
    lib, rf, ld = VARIANTS[variant]
    out = os.path.join(bdir, variant)
    os.makedirs(out, exist_ok=True)
    jobs = []
    srcs = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/**/*.c", recursive=True) +
                  [p for p in glob.glob(REPO + "/src/**/*.cpp", recursive=True) if os.path.dirname(p) != REPO + "/src"])
    for s in srcs:
        o = os.path.join(out, "lib_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
        cc = ["clang"] if s.endswith(".c") else ["clang++"]
        jobs.append((cc + COMMON + lib + ["-c", s, "-o", o], o))
    for s in [VERIF + "/ref/ref.cpp", VERIF + "/ref/words.cpp"]:
        o = os.path.join(out, "ref_" + os.path.basename(s) + ".o")
        jobs.append((["clang++", "-std=c++17", "-g1", "-w"] + rf + ["-c", s, "-o", o], o))
    for f in ["main.cpp"] + files:
        s = VERIF + "/harness/" + f
        o = os.path.join(out, "h_" + f + ".o")
        jobs.append((["clang++", "-std=c++17"] + COMMON + lib + ["-c", s, "-o", o], o))
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0][-3]))
    with ThreadPoolExecutor(NCPU) as ex:
        for (cmd, o), (rc, txt) in zip(jobs, ex.map(lambda j: sh(j[0]), jobs)):
            if rc:
                raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), txt[-4000:]))
    exe = os.path.join(out, "vh")
    rc, txt = sh(["clang++"] + ld + [o for _, o in jobs] + ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free", "-o", exe])
    if rc:
        raise CheckError("link failed:\n" + txt[-4000:])
    return exe


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=24:"
                       "max_malloc_fill_size=65536:malloc_fill_byte=165:quarantine_size_mb=8:handle_abort=1:"
                       "malloc_context_size=8:detect_stack_use_after_return=1:strict_string_checks=0:alloc_dealloc_mismatch=0")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
ENV["MSAN_OPTIONS"] = "exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=24"


class Shard:
    """One worker process over a strided range of cases; survives crashes by resuming after the crashing case."""

    def __init__(self, exe, prop, seed, start, end, stride, tier, deadline, leak, bdir, tag, caselimit):
        self.a = (exe, prop, seed, start, end, stride, tier, deadline, leak, caselimit)
        self.pf = os.path.join(bdir, "prog_" + tag)
        self.sf = os.path.join(bdir, "sig_" + tag)
        self.viols, self.samples, self.events = [], [], {}
        self.cases, self.cut, self.sigs, self.err = 0, False, set(), None

    def cmd(self, start, end=None, stride=None, leak=None, caselimit=None):
        exe, prop, seed, _, e, st, tier, deadline, lk, cl = self.a
        return [exe, prop, str(seed), str(start), str(end if end is not None else e), str(stride or st), self.pf, self.sf,
                str(tier), str(deadline), "leak" if (lk if leak is None else leak) else "noleak", str(caselimit or cl)]

    def run(self):
        cur, end, stride = self.a[3], self.a[4], self.a[5]
        crashes = 0
        while cur < end:
            for f in (self.pf, self.sf):
                if os.path.exists(f):
                    os.unlink(f)
            p = subprocess.run(self.cmd(cur), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
            out = p.stdout.decode("utf8", "replace")
            err = p.stderr.decode("utf8", "replace")
            done = False
            for line in out.splitlines():
                if line.startswith("VIOL "):
                    self.viols.append(json.loads(line[5:]))
                elif line.startswith("SAMPLE "):
                    self.samples.append(json.loads(line[7:]))
                elif line.startswith("SUMMARY "):
                    s = json.loads(line[8:])
                    done = True
                    self.cases += s["cases"]
                    self.cut |= s["cut"]
                    for k, v in s["events"].items():
                        self.events[k] = self.events.get(k, 0) + v
            if os.path.exists(self.sf):
                d = open(self.sf, "rb").read()
                self.sigs.update(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))
            if done:
                return self
            # died in case `at`
            if p.returncode == 2 or not os.path.exists(self.pf):
                self.err = "harness could not start: rc=%s %s" % (p.returncode, err[-500:])
                return self
            at, n, _ = struct.unpack("<QQQ", open(self.pf, "rb").read(24))
            self.cases += n + 1
            v = self.classify(at, p.returncode, err)
            if v:
                self.viols.append(v)
            crashes += 1
            if crashes >= 12 or (v and v["kind"] == "hang"):
                self.cut = True
                return self
            cur = at + stride
        return self

    def classify(self, at, rc, err):
        """A crash or hang must reproduce on its own before it is believed."""
        p = None
        for _ in range(2):
            try:
                p = subprocess.run(self.cmd(at, at + 1, 1, caselimit=60), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=120)
                rc2, err2 = p.returncode, p.stderr.decode("utf8", "replace")
            except subprocess.TimeoutExpired:
                rc2, err2 = 77, "HANG"
            if rc2 not in (0, 1):
                rc, err = rc2, err2
                break
        else:
            # not reproducible alone: replay the worker's whole prefix once more (history-dependent crash)
            p = subprocess.run(self.cmd(self.a[3]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV)
            if p.returncode in (0, 1) and b"SUMMARY" in p.stdout:
                return None
            err = p.stderr.decode("utf8", "replace")
            rc = p.returncode
        if rc == 77:
            return {"case": at, "scenario": "?", "kind": "hang", "detail": "case did not terminate within its time limit (re-run alone with 60 s)"}
        return {"case": at, "scenario": "?", "kind": "crash:" + san_kind(err), "detail": san_summary(err, rc)}


def san_kind(err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan-" + m.group(1)
    if "MemorySanitizer: use-of-uninitialized-value" in err:
        return "msan-uninitialised"
    m = re.search(r"runtime error: ([^\n]{0,60})", err)
    if m:
        return "ubsan-" + re.sub(r"[^a-z]+", "-", m.group(1).lower())[:40]
    if "Assertion" in err:
        return "assert"
    return "signal"


def san_summary(err, rc):
    lines = [l.strip() for l in err.splitlines()]
    keep = [l for l in lines if "ERROR:" in l or "WARNING: MemorySanitizer" in l or "runtime error" in l or "Assertion" in l or "SUMMARY" in l]
    fr = [re.sub(r"^#\d+ 0x[0-9a-f]+ in ", "", l) for l in lines if re.match(r"#\d+ 0x", l) and "/repo/src" in l][:5]
    return ("rc=%s " % rc + " | ".join(keep[:3]) + " at " + " <- ".join(fr))[:1400]


def load_known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) kind=(\S+)(?: match=\"([^\"]*)\")? (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true", help="validate the reference model against published vectors")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--case", type=int)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--variant")
    ap.add_argument("--workload", help="only this workload")
    a = ap.parse_args()
    if a.selftest:
        d = tempfile.mkdtemp(prefix=".build-selftest-", dir=VERIF)
        try:
            rc, o = sh(["clang++", "-std=c++17", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] +
                       [VERIF + "/ref/" + f for f in ("ref.cpp", "words.cpp", "selftest.cpp")] + ["-o", d + "/t"])
            if not rc:
                rc, o = sh([d + "/t"])
            print(o.strip())
        finally:
            shutil.rmtree(d, ignore_errors=True)
        sys.exit(1 if rc else 0)
    if a.replay:
        r = json.load(open(a.replay))
        a.prop, a.seed, a.case, a.variant, a.tier = r["property"], r["seed"], r["case"], r["variant"], r["tier"]
        a.workload = r.get("workload")
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    cfg = CHECKS[prop]
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix=".build-%s-" % prop, dir=VERIF)

    def cleanup(*_):
        shutil.rmtree(bdir, ignore_errors=True)
        sys.exit(2)
    signal.signal(signal.SIGTERM, cleanup)
    try:
        rc = run(prop, tier, cfg, a, bdir, t0)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, cfg, a, bdir, t0):
    # plan entries: (build, cases[, workload of another property, of which only crashes, sanitizer reports and hangs count here])
    plan = [(e[0], e[1], e[2] if len(e) > 2 else prop) for e in cfg[tier]]
    if a.variant:
        plan = [e for e in plan if e[0] == a.variant] or [(a.variant, n, w) for _, n, w in plan]
    if a.workload:
        plan = [e for e in plan if e[2] == a.workload] or [(plan[0][0], plan[0][1], a.workload)]
    variants = []
    for v, _, _ in plan:
        if v not in variants:
            variants.append(v)
    exes = {v: build(v, cfg["files"], bdir) for v in variants}
    tbuild = time.time() - t0
    if a.case is not None:
        rc = 0
        for v in variants:
            s = Shard(exes[v], a.workload or prop, a.seed, a.case, a.case + 1, 1, int(tier == "thorough"), 0, cfg.get("leak", False), bdir, "replay", 60)
            r = subprocess.run(s.cmd(a.case), env=ENV)
            print("replay variant=%s rc=%d" % (v, r.returncode))
            rc = rc or (1 if r.returncode else 0)
        return rc
    known = load_known()
    viols, samples, events, sigs, cases, cut = [], [], {}, set(), 0, False
    per_variant = {}
    budget = cfg.get("budget", 400 if tier == "quick" else 3600)  # whole run; what does not fit is reported as time_limited
    for v, n, wl in plan:
        n = max(8, int(n * a.scale))
        left = budget - (time.time() - t0)
        if left < 10 and cases:
            cut = True
            continue
        deadline = max(10, int(min(left, cfg.get("deadline", 240 if tier == "quick" else 1800))))
        shards = [Shard(exes[v], wl, a.seed, i, n, NCPU, int(tier == "thorough"), deadline,
                        cfg.get("leak", False) and v == "asan", bdir, "%s_%s_%d" % (v, wl, i), cfg.get("caselimit", 20)) for i in range(NCPU)]
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda s: s.run(), shards))
        vc = 0
        for s in shards:
            if s.err:
                raise CheckError(s.err)
            for x in s.viols:
                if wl != prop and not (x["kind"].startswith("crash:") or x["kind"] == "hang"):
                    continue
                x["variant"], x["workload"] = v, wl
                viols.append(x)
            samples += s.samples
            vc += s.cases
            cut |= s.cut
            sigs |= s.sigs
            for k, c in s.events.items():
                events[k] = events.get(k, 0) + c
        tag = v if wl == prop else v + ":" + wl
        per_variant[tag] = per_variant.get(tag, 0) + vc
        cases += vc
        if viols:
            break
    if not cases:
        raise CheckError("no case ran")
    new, hit = [], {}
    for x in viols:
        for kp, kk, km, kt in known:
            if kp == prop and re.fullmatch(kk, x["kind"]) and (not km or re.search(km, x["detail"])):
                hit[(kk, kt)] = hit.get((kk, kt), 0) + 1
                break
        else:
            new.append(x)
    for (kk, kt), c in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s (kind %s, seen in %d cases)" % (prop, kt, kk, c))
    missing = [e for e in cfg.get("expect", []) if not events.get(e)]
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    samples = sorted(samples, key=lambda s: s["case"])[:8]
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": cfg["level"],
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(sigs), "rule": cfg["rule"],
            "samples": [{"case": s["case"], "scenario": s["scenario"], "observed": s["text"]} for s in samples] or [{"observed": "none"}],
            "events": dict(sorted(events.items())), "cases_per_build": per_variant, "time_limited": cut,
            "missing_expected_events": missing,
        },
        "wall_s": round(time.time() - t0, 2), "build_s": round(tbuild, 2),
        "violations": len(new), "assumptions": cfg.get("assumptions", []),
    }
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    if new:
        rd = os.path.join(evd, "replay")
        os.makedirs(rd, exist_ok=True)
        x = min(new, key=lambda y: y["case"])
        path = os.path.join(rd, "%s-%d.json" % (prop, x["case"]))
        json.dump({"property": prop, "seed": a.seed, "case": x["case"], "variant": x["variant"], "tier": tier, "workload": x["workload"],
                   "violation": x, "others": new[1:20], "how": "python3 /verif/run.py --replay " + path}, open(path, "w"), indent=1)
        kinds = {}
        for y in new:
            kinds.setdefault((y["scenario"], y["kind"]), y)
        for (sc, k), y in list(kinds.items())[:10]:
            print("  %s/%s [%s] case %d: %s" % (sc, k, y["variant"], y["case"], y["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if missing:
        print("CHECK-ERROR property=%s monitors never observed: %s" % (prop, ", ".join(missing)))
        return 2
    print("HELD property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs (build %.1fs)" % (prop, tier, a.seed, cases, len(sigs), time.time() - t0, tbuild))
    return 0


if __name__ == "__main__":
    main()
