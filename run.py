#!/usr/bin/env python3
"""Driver: builds /repo's working tree with a sanitizer and a harness, runs seeded
cases of one property in parallel, judges what the monitors reported, writes evidence.

  run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--cases N] [--only SCENARIO] [--jobs N]
"""
import argparse, concurrent.futures as cf, fnmatch, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RCPR_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from checks import CHECKS, GROUPS, VARIANTS          # noqa: E402

T0 = time.time()
JOBS = 8


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- build
def repo_sources(variant):
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        rel = os.path.relpath(root, REPO)
        if "/kqueue" in rel:
            continue
        if rel.endswith("platform/poll") and not variant.get("poll"):
            continue
        if rel.endswith("platform/epoll") and variant.get("poll"):
            continue
        for f in sorted(files):
            if f.endswith(".c") or (f.endswith(".s") and "x86_64" in rel):
                out.append(os.path.join(root, f))
    return sorted(out)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def all_files(d, exts):
    out = []
    for root, _, files in os.walk(d):
        for f in files:
            if f.endswith(exts):
                out.append(os.path.join(root, f))
    return out


def make_config(dst, variant):
    with open(os.path.join(REPO, "config.h.cmake")) as f:
        t = f.read()
    with open(os.path.join(REPO, "CMakeLists.txt")) as f:
        m = re.search(r"PROJECT\(rcpr VERSION (\d+)\.(\d+)\.(\d+)", f.read(), re.I)
    v = m.groups() if m else ("0", "4", "2")
    t = t.replace("@RCPR_VERSION_MAJOR@", v[0]).replace("@RCPR_VERSION_MINOR@", v[1]).replace("@RCPR_VERSION_REL@", v[2])
    on = {"RCPR_FIBER_FOUND", "HAS_PSOCK_ASYNC"} | set(variant.get("config", ["RCPR_VTABLE_CHECK_ASSERT"]))
    t = re.sub(r"#cmakedefine (\w+)", lambda k: ("#define " if k.group(1) in on else "#undef ") + k.group(1), t)
    os.makedirs(os.path.join(dst, "rcpr"), exist_ok=True)
    p = os.path.join(dst, "rcpr", "config.h")
    with open(p, "w") as f:
        f.write(t)


def compile_many(jobs):
    """jobs: list of (cmd, outfile)"""
    def one(j):
        cmd, out = j
        if os.path.exists(out):
            return None
        tmp = out + ".tmp%d" % threading.get_ident()
        r = sh(cmd + ["-o", tmp])
        if r.returncode != 0:
            return "%s\n%s" % (" ".join(cmd), r.stdout)
        os.rename(tmp, out)
        return None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for e in ex.map(one, jobs):
            if e:
                raise CheckError("compilation failed:\n" + e[-4000:])


def prune(keep):
    """keep the cache of object directories small"""
    ds = [d for d in glob.glob(os.path.join(BUILD, "obj", "*")) if os.path.isdir(d)]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[12:]:
        if d not in keep:
            shutil.rmtree(d, ignore_errors=True)


def build(targets):
    """targets: list of (group, variant name). Returns {(group, variant): exe}"""
    hdr = all_files(os.path.join(REPO, "include"), (".h",)) + all_files(os.path.join(REPO, "src"), (".h", ".inc"))
    hdr += [os.path.join(REPO, "config.h.cmake"), os.path.join(REPO, "CMakeLists.txt")]
    hh = tree_hash(hdr)
    jobs, links, keep = [], [], []
    for vname in sorted({v for _, v in targets}):
        V = VARIANTS[vname]
        srcs = repo_sources(V)
        key = hashlib.sha256((hh + json.dumps(V, sort_keys=True)).encode()).hexdigest()[:12]
        d = os.path.join(BUILD, "obj", "%s-%s" % (vname, key))
        keep.append(d)
        os.makedirs(d, exist_ok=True)
        os.utime(d)
        make_config(d, V)
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + d, "-I" + REPO, "-I" + os.path.join(REPO, "src/fiber/platform/sysv/x86_64")]
        objs = []
        for s in srcs:
            with open(s, "rb") as f:
                k = hashlib.sha256(s.encode() + f.read()).hexdigest()[:16]
            o = os.path.join(d, "%s-%s.o" % (os.path.basename(s), k))
            if s.endswith(".s"):
                cmd = ["gcc", "-g", "-c", "-Wa,-I," + os.path.join(REPO, "src/fiber/platform/sysv/x86_64")] + inc + [s]
            else:
                cmd = [V.get("cc", "gcc"), "-std=gnu11", "-g", "-fPIC", "-DNDEBUG", "-w"] + V["cflags"] + inc + ["-c", s]
            jobs.append((cmd, o))
            objs.append(o)
        for g in [g for g, v in targets if v == vname]:
            G = GROUPS[g]
            gobjs = []
            for s in ["mon.cpp"] + G["sources"]:
                p = os.path.join(HARN, s)
                with open(p, "rb") as f:
                    k = f.read()
                for h in sorted(glob.glob(os.path.join(HARN, "*.h"))):
                    with open(h, "rb") as f:
                        k += f.read()
                k += json.dumps(G.get("cflags", [])).encode()
                kk = hashlib.sha256(k).hexdigest()[:16]
                o = os.path.join(d, "h_%s-%s.o" % (s, kk))
                if s.endswith(".s") or s.endswith(".S"):
                    cmd = ["gcc", "-g", "-c", p]
                elif s.endswith(".c"):
                    cmd = [V.get("cc", "gcc"), "-std=gnu11", "-g", "-w"] + V["cflags"] + inc + ["-c", p]
                else:
                    cmd = [V.get("cxx", "g++"), "-std=gnu++20", "-g", "-w", "-I" + HARN] + V["hflags"] + G.get("cflags", []) + inc + ["-c", p]
                jobs.insert(0, (cmd, o))
                gobjs.append(o)
            lk = hashlib.sha256(json.dumps([objs, gobjs, G.get("wrap", [])]).encode()).hexdigest()[:12]
            exe = os.path.join(d, "%s-%s" % (g, lk))
            wraps = ["-Wl,--wrap=" + w for w in ["mmap", "munmap"] + G.get("wrap", [])]
            links.append(([V.get("cxx", "g++")] + V["lflags"] + wraps + gobjs + objs + ["-lpthread"] + G.get("libs", []), exe, (g, vname)))
    # de-duplicate
    seen, uj = set(), []
    for j in jobs:
        if j[1] not in seen:
            seen.add(j[1])
            uj.append(j)
    compile_many(uj)
    compile_many([(c, e) for c, e, _ in links])
    prune(set(keep))
    return {k: e for _, e, k in links}


# ---------------------------------------------------------------- running
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=99:abort_on_error=0:"
                    "handle_segv=1:use_sigaltstack=1:max_allocation_size_mb=4096:quarantine_size_mb=32:symbolize=1:malloc_context_size=8",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4",
    "LC_ALL": "C",
})


def parse_crash(err, rc):
    """-> (key, short message)"""
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    kind = None
    if m:
        kind = "asan:" + m.group(1)
    u = re.search(r"runtime error: (.*)", err)
    if u and not m:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", u.group(1))[:80]
    t = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
    if t:
        kind = "tsan:" + t.group(1).strip()
    g = re.search(r"==\d+== (Conditional jump|Use of uninit|Syscall param \S+|Invalid (?:read|write|free)|Jump to the invalid|Source and destination overlap)", err)
    if g and not kind:
        kind = "memcheck:" + g.group(1).replace(" ", "_")
    if not kind:
        kind = "signal:%d" % -rc if rc < 0 else "exit:%d" % rc
    fn = None
    for f in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err):
        if "/repo/" in f.group(2) or REPO in f.group(2):
            fn = f.group(1)
            break
    if not fn:
        for f in re.finditer(r"#\d+ (\S+) (/\S+)", err):
            if REPO in f.group(2):
                fn = f.group(1)
                break
    if g and not fn:
        for f in re.finditer(r"==\d+== +(?:at|by) 0x[0-9A-F]+: (\S+) \((/\S+?):\d+\)", err):
            if REPO in f.group(2):
                fn = f.group(1)
                break
    return kind + (":" + re.sub(r"^V\d+_\d+_", "", re.sub(r"^.*V0_\d+_", "", fn)) if fn else ""), (m or u or t or g).group(0) if (m or u or t or g) else kind


class Runner:
    def __init__(self, prop, cfg, tier, seed, exes):
        self.prop, self.cfg, self.tier, self.seed, self.exes = prop, cfg, tier, seed, exes
        self.viol, self.inconc, self.skipped = [], [], 0
        self.stats = {"cases": 0, "nontrivial": 0, "counts": {}, "samples": [], "distinct": set()}
        self.lock = threading.Lock()
        self.stop = False
        self.tmp = os.path.join(BUILD, "tmp", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.tmp, exist_ok=True)
        self.seq = 0
        self.known = load_known(prop)
        self.known_hit = {}

    def cmd(self, vname, exe, a, b, out, prog, tmo, only=None):
        c = [x.replace("=harness/", "=" + HARN + "/") for x in VARIANTS[vname].get("run", [])] + [exe, "--prop", self.prop, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--tier", self.tier,
             "--out", out, "--progress", prog, "--timeout", str(tmo)]
        return c + (["--only", only] if only else [])

    def once(self, tgt, a, b, tmo, only=None):
        with self.lock:
            self.seq += 1
            n = self.seq
        out, prog, err = [os.path.join(self.tmp, "%d.%s" % (n, x)) for x in ("out", "prog", "err")]
        with open(err, "wb") as e, open(os.devnull, "rb") as dn:
            p = subprocess.Popen(self.cmd(tgt[1], self.exes[tgt], a, b, out, prog, tmo, only), stdin=dn, stdout=e, stderr=e, env=ENV,
                                 cwd=self.tmp, start_new_session=True)
            dead = False
            try:
                rc = p.wait(timeout=max(120, tmo * 4) + (b - a) * self.cfg.get("case_s", 0.5))
            except subprocess.TimeoutExpired:
                dead = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            if dead:
                p.wait()
                rc = 4
        recs = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
        at = None
        if os.path.exists(prog):
            d = open(prog, "rb").read()
            if len(d) >= 8:
                at = struct.unpack("<Q", d[:8])[0]
        et = open(err, errors="replace").read()[-20000:]
        for f in (out, prog, err):
            try:
                os.unlink(f)
            except OSError:
                pass
        return rc, recs, at, et

    def absorb(self, recs):
        with self.lock:
            s = self.stats
            for r in recs:
                if r["t"] != "stats":
                    continue
                s["cases"] += r["cases"]
                s["nontrivial"] += r["nontrivial"]
                for k, v in r["counts"].items():
                    if k.startswith("max_"):
                        s["counts"][k] = max(s["counts"].get(k, 0), v)
                    else:
                        s["counts"][k] = s["counts"].get(k, 0) + v
                if len(s["samples"]) < 6:
                    s["samples"] += [x for x in r["samples"] if x.split("#")[0] not in {y.split("#")[0] for y in s["samples"]}] or r["samples"][:1]
                s["distinct"].update(r["distinct"])

    def report(self, tgt, kind, key, msg, scenario, idx, log, err="", only=None):
        kinds = self.cfg.get("kinds")
        if kinds and kind not in kinds and not any(k.startswith(kind + ":") and fnmatch.fnmatchcase(key, k[len(kind) + 1:]) for k in kinds):
            with self.lock:
                self.skipped += 1
            return
        for k in self.known:
            if fnmatch.fnmatchcase(scenario, k["scenario"]) and fnmatch.fnmatchcase(key, k["key"]):
                with self.lock:
                    self.known_hit[k["id"]] = self.known_hit.get(k["id"], 0) + 1
                return
        with self.lock:
            self.viol.append(dict(kind=kind, key=key, msg=msg, scenario=scenario, idx=idx, log=log, stderr=err, target=list(tgt), only=only))
            if len(self.viol) >= 4:
                self.stop = True

    def chunk(self, tgt, a, b, only=None):
        tmo = self.cfg.get("timeout", 30)
        while a < b and not self.stop:
            rc, recs, at, err = self.once(tgt, a, b, tmo, only)
            self.absorb(recs)
            if rc == 0 and any(r["t"] == "done" for r in recs):
                return
            at = a if at is None else at
            scn = None
            v = [r for r in recs if r["t"] == "viol"]
            inc = [r for r in recs if r["t"] == "inconclusive"]
            if rc == 3 and v:
                v = v[-1]
                self.report(tgt, v["kind"], v["key"], v["msg"], v["scenario"], v["idx"], v["log"], only=only)
            elif rc == 5 and inc:
                with self.lock:
                    self.inconc.append(inc[-1])
            elif rc in (6, 7):
                raise CheckError("harness error %d: %s" % (rc, err[-1500:]))
            elif rc == 4:
                rc2, recs2, _, err2 = self.once(tgt, at, at + 1, tmo * 3, only)
                h = [r for r in recs2 if r["t"] == "hang"]
                v2 = [r for r in recs2 if r["t"] == "viol"]
                if rc2 == 4:
                    self.report(tgt, "hang", "hang", "case did not finish in %d s, twice" % tmo, h[-1]["scenario"] if h else "?", at, "", err2, only)
                elif rc2 == 3 and v2:
                    v = v2[-1]
                    self.report(tgt, v["kind"], v["key"], v["msg"], v["scenario"], v["idx"], v["log"], only=only)
                elif rc2 == 0:
                    self.absorb(recs2)
                    with self.lock:
                        self.inconc.append({"why": "slow case finished on re-run", "idx": at})
                else:
                    key, msg = parse_crash(err2, rc2)
                    self.report(tgt, "mem", key, msg, self.scn_of(tgt, at, only), at, "", err2, only)
            elif "ThreadSanitizer: CHECK failed" in err or "FATAL: ThreadSanitizer" in err:
                with self.lock:
                    self.inconc.append({"why": "sanitizer failed: " + err[:200], "idx": at})
                if rc == 66 and at == a:
                    raise CheckError("tsan cannot run: " + err[:300])
            else:
                key, msg = parse_crash(err, rc)
                if rc == -9:
                    # ended by the memory guard: no verdict on this case
                    with self.lock:
                        self.inconc.append({"why": "killed", "idx": at})
                else:
                    self.report(tgt, "mem", key, msg, self.scn_of(tgt, at, only), at, "", err, only)
            a = at + 1

    def scn_of(self, tgt, idx, only):
        if not hasattr(self, "_lst"):
            self._lst = {}
        if tgt not in self._lst:
            r = sh([self.exes[tgt], "--list"], env=ENV)
            sel = []
            for l in r.stdout.splitlines():
                name, *props, w = l.split()
                if self.prop in props and (not only or only == name):
                    sel += [name] * int(w)
            self._lst[tgt] = sel
        s = self._lst[tgt]
        return s[idx % len(s)] if s else "?"

    def run(self, cases, only=None):
        work = []
        for tgt in self.exes:
            n = cases[tgt]
            parts = max(1, min(n, JOBS * 4 // max(1, len(self.exes))))
            step = (n + parts - 1) // parts
            for a in range(0, n, step):
                work.append((tgt, a, min(n, a + step)))
        # interleave, so that a violation in any target shows early
        work.sort(key=lambda w: w[1] / max(1, cases[w[0]]))
        with cf.ThreadPoolExecutor(self.cfg.get("jobs", JOBS)) as ex:
            for f in [ex.submit(self.chunk, *w, only) for w in work]:
                f.result()


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) key=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"id": len(out), "scenario": m.group(2), "key": m.group(3), "what": m.group(4)})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--warm", action="store_true", help="build everything the checks need")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--target")
    a = ap.parse_args()
    global JOBS
    if a.jobs:
        JOBS = a.jobs
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    if a.warm:
        tg = sorted({tuple(t) for c in CHECKS.values() for t in c["targets"]})
        build(tg)
        print("built %d targets in %.1fs" % (len(tg), time.time() - T0))
        return 0
    cfg = CHECKS[a.prop]
    if a.replay:
        r = json.load(open(a.replay))
        tgt = tuple(r["target"])
        exe = build([tgt])[tgt]
        R = Runner(a.prop, cfg, r["tier"], r["seed"], {tgt: exe})
        rc, recs, at, err = R.once(tgt, r["idx"], r["idx"] + 1, 120, r.get("only"))
        for x in recs:
            if x["t"] in ("viol", "hang"):
                print(json.dumps(x, indent=1))
        print(err)
        return 1 if rc else 0
    tgts = [t for t in cfg["targets"] if not a.target or "/".join(t) == a.target]
    exes = build([tuple(t) for t in tgts])
    tb = time.time() - T0
    R = Runner(a.prop, cfg, tier, seed, exes)
    mult = cfg.get("thorough_x", 20) if tier == "thorough" else 1
    share = cfg.get("share", {})
    cases = {t: int(a.cases or cfg["cases"] * mult * share.get("/".join(t), 1)) for t in exes}
    try:
        R.run(cases, a.only)
    finally:
        shutil.rmtree(R.tmp, ignore_errors=True)
    st = R.stats
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": st["cases"], "distinct_nontrivial": len(st["distinct"]),
            "rule": cfg["rule"], "samples": st["samples"][:6] or ["(none)"],
            "events": {k: v for k, v in sorted(st["counts"].items())},
            "targets": ["%s built as %s" % t for t in exes],
            "inconclusive": len(R.inconc), "inconclusive_detail": R.inconc[:5],
            "not_judged_here": R.skipped,
        },
        "assumptions": cfg.get("assumptions", []) + ["the compiler, libc, kernel and sanitizer runtimes behave as specified"],
        "wall_s": round(time.time() - T0, 2), "build_s": round(tb, 2), "violations": len(R.viol),
    }
    if R.known:
        ev["coverage"]["known_findings"] = [{"what": k["what"], "hits": R.known_hit.get(k["id"], 0)} for k in R.known]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in R.known:
        if R.known_hit.get(k["id"]):
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    if R.viol:
        rd = os.path.join(BUILD, "replays")
        os.makedirs(rd, exist_ok=True)
        shown = set()
        for i, v in enumerate(R.viol):
            path = os.path.join(rd, "%s-%d.json" % (a.prop, i))
            v.update(property=a.prop, tier=tier, seed=seed, how="python3 /verif/run.py %s --replay %s" % (a.prop, path))
            json.dump(v, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            if v["key"] not in shown:
                shown.add(v["key"])
                print("  %s [%s] scenario=%s idx=%s: %s" % (v["key"], v["kind"], v["scenario"], v["idx"], v["msg"][:300]))
        return 1
    if st["cases"] == 0 or not st["distinct"]:
        print("error: nothing was evaluated")
        return 2
    print("%s %s: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)%s" % (
        a.prop, tier, st["cases"], len(st["distinct"]), time.time() - T0, tb,
        ", %d inconclusive" % len(R.inconc) if R.inconc else ""))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("error: " + str(e))
        sys.exit(2)
