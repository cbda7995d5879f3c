#!/usr/bin/env python3
"""Build and run the monitor of one property against /repo's working tree.

usage: run.py <ID> [quick|thorough]      decide one property
       run.py --replay <replay file>     re-run one recorded case
       run.py --setup                    check that the toolchain works
Exit 0: held on everything observed.  1: VIOLATION.  2: the check itself failed
(did not build, observed nothing, harness error).
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
NPROC = min(8, os.cpu_count() or 8)

CXX = os.environ.get("VERIF_CXX", "g++")
BASE = ["-std=c++14", "-w", "-fno-omit-frame-pointer", "-I" + SRC, "-I" + SRC + "/GTMesh", "-I" + HARN]
FLAVOURS = {
    "san": ["-O1", "-gline-tables-only" if "clang" in CXX else "-g1", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-DVH_SAN"],
    "plain": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DVH_PLAIN"],
    "vg": ["-O1", "-g1", "-DVH_VALGRIND"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-DVH_TSAN"],
}
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=0:"
                    "max_allocation_size_mb=2048:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:check_initialization_order=1:detect_invalid_pointer_pairs=0:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=5",
}
CASE_LIMIT = {"san": 60, "plain": 60, "vg": 150, "tsan": 90}  # seconds without progress on one case


def config():
    with open(os.path.join(HARN, "config.json")) as f:
        return json.load(f)


def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def sources(pid, cfg):
    tus = cfg.get("tus") or sorted(os.path.basename(p) for p in glob.glob(os.path.join(HARN, pid + "*.cpp")))
    return [os.path.join(HARN, t) for t in tus] + [os.path.join(HARN, "vh_main.cpp")]


def build(pid, cfg, flavours):
    """Compile every flavour of the driver; returns {flavour: binary} or raises."""
    deps = [p for ext in ("h", "hpp", "cpp") for p in glob.glob(SRC + "/**/*." + ext, recursive=True)]
    deps += glob.glob(HARN + "/*.h") + sources(pid, cfg)
    jobs, bins = [], {}
    key0 = file_hash(deps)
    for fl in flavours:
        flags = BASE + FLAVOURS[fl] + cfg.get("flags", [])
        key = hashlib.sha256((key0 + CXX + " ".join(flags)).encode()).hexdigest()[:20]
        d = os.path.join(BUILD, pid, fl)
        out = os.path.join(d, "drv-" + key)
        bins[fl] = out
        if os.path.exists(out):
            continue
        os.makedirs(d, exist_ok=True)
        for old in os.listdir(d):
            try:
                os.unlink(os.path.join(d, old))
            except OSError:
                pass
        objs = []
        for s in sources(pid, cfg):
            o = os.path.join(d, os.path.basename(s) + "-" + key + ".o")
            objs.append(o)
            jobs.append((fl, [CXX] + flags + ["-c", s, "-o", o], o))
        link = [CXX] + flags + objs + ["-o", out] + cfg.get("libs", ["-lpthread"])
        bins[fl + ":link"] = (link, objs)
    running, errs = [], []
    jobs = list(jobs)
    while jobs or running:
        while jobs and len(running) < NPROC:
            fl, cmd, o = jobs.pop(0)
            log = o + ".log"
            running.append((cmd, log, subprocess.Popen(cmd, stdout=open(log, "w"), stderr=subprocess.STDOUT, cwd=VERIF)))
        for r in running[:]:
            if r[2].poll() is not None:
                running.remove(r)
                if r[2].returncode:
                    errs.append((r[0], open(r[1], errors="replace").read()))
        time.sleep(0.02)
    if errs:
        return None, errs
    for fl in flavours:
        if fl + ":link" in bins:
            link, objs = bins.pop(fl + ":link")
            p = subprocess.run(link, capture_output=True, text=True, cwd=VERIF)
            if p.returncode:
                return None, [(link, p.stdout + p.stderr)]
            for o in objs:
                for f in (o, o + ".log"):
                    if os.path.exists(f):
                        os.unlink(f)
    return bins, None


def classify(text, rc, fl):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"AddressSanitizer: (hard rss limit|requested allocation)", text)
    if m:
        return "asan:" + m.group(1).replace(" ", "-")
    m = re.search(r"([^\s:]+):(\d+):\d+: runtime error: (.*)", text)
    if m:
        return "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(3))[:80].strip().replace(" ", "-")
    if "WARNING: ThreadSanitizer: " in text:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
        return "tsan:" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"Assertion '(.*?)' failed", text)
    if m:
        return "stl-assertion"
    if fl == "vg" and rc == 99:
        m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|Mismatched|Source and destination|Syscall param|Argument)", text)
        return "valgrind:" + (m.group(1).replace(" ", "-") if m else "error")
    if "LeakSanitizer" in text:
        return "lsan:leak"
    if rc < 0:
        try:
            return "signal:" + signal.Signals(-rc).name
        except ValueError:
            return "signal:%d" % -rc
    return "exit:%d" % rc


class Proc:
    """One shard of a driver, resumed after a crash or a hang."""

    def __init__(self, binary, fl, work, name, args, env):
        self.binary, self.fl, self.work, self.name, self.args, self.env = binary, fl, work, name, args, env
        self.skip, self.round, self.results, self.crashes, self.done = 0, 0, [], [], False
        self.hang_retry = None
        self.errors = []
        self.start()

    def start(self):
        self.round += 1
        base = os.path.join(self.work, "%s-%d" % (self.name, self.round))
        self.out, self.cur, self.err, self.hash = base + ".json", base + ".cur", base + ".err", base + ".hash"
        scratch = base + ".d"
        os.makedirs(scratch, exist_ok=True)
        cmd = [self.binary] + self.args + ["--out", self.out, "--cur", self.cur, "--hashes", self.hash,
                                           "--scratch", scratch, "--skip", str(self.skip)]
        if self.fl == "vg":
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no",
                   "--soname-synonyms=somalloc=nouserintercepts", "--suppressions=" + os.path.join(HARN, "vg.supp"), "--undef-value-errors=yes", "--track-origins=yes"] + cmd
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(self.err, "w"), env=self.env, cwd=scratch,
                                  start_new_session=True)
        self.last, self.last_t = None, time.time()

    def read_cur(self):
        try:
            with open(self.cur, "rb") as f:
                return f.read().split(b"\0", 1)[0].decode("utf-8", "replace")
        except OSError:
            return ""

    def poll(self):
        rc = self.p.poll()
        c = self.read_cur()
        if rc is None:
            head = c.split("\n", 3)[:3]
            if head != self.last:
                self.last, self.last_t = head, time.time()
            elif time.time() - self.last_t > CASE_LIMIT[self.fl]:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait()
                self.crashed("hang", c, "no progress on this case for %d s" % CASE_LIMIT[self.fl])
            return
        if rc in (0, 3) and os.path.exists(self.out):
            with open(self.out) as f:
                self.results.append(json.load(f))
            self.done = True
            return
        with open(self.err, errors="replace") as f:
            text = f.read()
        self.crashed(classify(text, rc, self.fl), c, text[-12000:], rc)

    def crashed(self, kind, c, text, rc=None):
        parts = c.split("\n", 3)
        if len(parts) < 3 or parts[0] == "done":
            if re.match(r"(asan|ubsan|tsan|lsan|stl|valgrind)|signal:SIG(SEGV|ABRT|BUS|FPE|ILL)", kind):
                self.crashes.append({"section": "start" if len(parts) < 3 else "end", "case": -1, "kind": kind, "msg": text, "desc": "", "flavour": self.fl})
                self.done = True
                return
            self.errors.append("driver died outside a case: %s rc=%s\n%s" % (kind, rc, text[-3000:]))
            self.done = True
            return
        self.crashes.append({"section": parts[1], "case": int(parts[2]), "kind": kind, "msg": text,
                             "desc": parts[3] if len(parts) > 3 else "", "flavour": self.fl})
        self.skip = int(parts[0])
        if len(self.crashes) >= 4:
            self.done = True
            return
        self.start()


def load_known(pid):
    """known: property=ID section=S kind=K what: ..."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) section=(\S+) kind=(\S+) what: (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def env_for():
    e = dict(os.environ)
    e.update(SAN_ENV)
    return e


def compiler_works():
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/a.cpp", "w") as f:
            f.write("#include <map>\n#include <string>\nint main() { return std::map<std::string, int>().empty() ? 0 : 1; }\n")
        return subprocess.run([CXX] + BASE + FLAVOURS["san"] + [d + "/a.cpp", "-o", d + "/a"], capture_output=True).returncode == 0


def main():
    if sys.argv[1] == "--setup":
        for t in ("g++", "valgrind"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("setup ok")
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    cfg = config().get(pid, {})
    runs = [dict(r) for r in cfg.get("runs", [{"flavour": "san"}])]
    runs = [r for r in runs if tier == "thorough" or not r.get("thorough_only")]
    flavours = []
    for r in runs:
        if r["flavour"] not in flavours:
            flavours.append(r["flavour"])
    bins, errs = build(pid, cfg, flavours)
    if bins is None:
        for cmd, text in errs[:2]:
            print("BUILD FAILED:", " ".join(cmd))
            print("\n".join([l for l in text.splitlines() if re.search(r"(error|Error):|required from here", l)][:12])[:3000])
        bad = next(((c, t) for c, t in errs if re.search(r"(?<!fatal) error: |undefined reference", t) and not re.search(r"No space left|annot allocate memory|out of memory|Killed|No such file", t)), None)
        if bad and compiler_works():
            # uses of the documented interface that the property speaks of are not valid any more
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, pid + "-1.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "seed": seed, "section": "build", "case": -1, "kind": "does-not-compile",
                           "msg": bad[1][:20000], "desc": " ".join(bad[0]), "flavour": flavours[0]}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  section=build case=-1 kind=does-not-compile: valid uses of the interface are rejected by the compiler")
            return 1
        return 2
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="vh-%s-" % pid)
    try:
        return run(pid, tier, seed, t0, tb, cfg, runs, bins, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, tier, seed, t0, tb, cfg, runs, bins, work):
    env = env_for()
    pend = []
    for ri, r in enumerate(runs):
        fl = r["flavour"]
        lst = subprocess.run([bins[fl], "--list"], capture_output=True, text=True, env=env)
        if lst.returncode:
            print("driver cannot list its sections:", lst.stderr[-2000:])
            return 2
        secs = [l.split()[0] for l in lst.stdout.splitlines() if l.strip()]
        if "sections" in r:
            secs = [s for s in secs if any(re.fullmatch(x, s) for x in r["sections"])]
        if "exclude" in r:
            secs = [s for s in secs if not any(re.fullmatch(x, s) for x in r["exclude"])]
        common = ["--seed", str(seed), "--tier", tier]
        if "scale" in r:
            common += ["--scale", str(r["scale_thorough"] if tier == "thorough" and "scale_thorough" in r else r["scale"])]
        probes = [s for s in secs if s.startswith("probe_")]
        rest = [s for s in secs if not s.startswith("probe_")]
        n = r.get("shards", NPROC)
        if rest:
            for i in range(n):
                pend.append((bins[fl], fl, "r%d-s%d" % (ri, i), common + ["--only-sections", ",".join(rest), "--shard", str(i), "--nshards", str(n)]))
        for s in probes:
            pend.append((bins[fl], fl, "r%d-%s" % (ri, s), common + ["--section", s]))
    procs, active = [], []
    while pend or active:
        while pend and len(active) < NPROC:
            b, fl, name, args = pend.pop(0)
            p = Proc(b, fl, work, name, args, env)
            procs.append(p)
            active.append(p)
        for p in active[:]:
            p.poll()
            if p.done:
                active.remove(p)
        time.sleep(0.02)
    # hang cases are re-run once, alone: only a repeated hang counts
    viols, inconclusive, errors = [], [], []
    for p in procs:
        errors += p.errors
        for v in p.crashes:
            if v["kind"] in ("signal:SIGKILL", "signal:SIGTERM"):  # ended from outside: counts only if it dies again
                a = [p.binary] + ["--seed", str(seed), "--tier", tier, "--section", v["section"], "--case", str(v["case"])]
                q = subprocess.run((["valgrind", "-q"] if p.fl == "vg" else []) + a, env=env, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, cwd=work)
                if q.returncode in (0, 3):
                    inconclusive.append(v)
                    continue
            if v["kind"] == "hang":
                a = [p.binary] + ["--seed", str(seed), "--tier", tier, "--section", v["section"], "--case", str(v["case"])]
                try:
                    q = subprocess.run((["valgrind", "-q"] if p.fl == "vg" else []) + a, env=env, stdout=subprocess.DEVNULL,
                                       stderr=subprocess.DEVNULL, timeout=CASE_LIMIT[p.fl] + 30, cwd=work)
                    inconclusive.append(v)
                    continue
                except subprocess.TimeoutExpired:
                    v["kind"] = "nontermination"
            viols.append(v)
        for r in p.results:
            for v in r["violations"]:
                v["flavour"] = p.fl
                viols.append(v)
    cases, events, sections, samples, hashes = 0, {}, {}, [], set()
    for p in procs:
        for r in p.results:
            cases += r["cases"]
            for k, v in r["events"].items():
                events[k] = events.get(k, 0) + v
            for k, v in r["sections"].items():
                sections[p.fl + "/" + k] = sections.get(p.fl + "/" + k, 0) + v
            samples += r["samples"]
        for f in glob.glob(os.path.join(work, p.name + "-*.hash")):
            data = open(f, "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(data) // 8), data))
    seen, picked = {}, []
    for s in samples:
        k = s.split("#")[0]
        if seen.setdefault(k, 0) < 2:
            seen[k] += 1
            picked.append(s)
    known = load_known(pid)
    new, hit = [], {}
    for v in viols:
        k = next((x for x in known if x[0] == v["section"] and x[1] == v["kind"]), None)
        if k:
            hit[k] = hit.get(k, 0) + 1
        else:
            new.append(v)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s section=%s kind=%s %s" % (pid, k[0], k[1], k[2]))
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(hashes), "rule": cfg.get("rule", ""),
            "samples": picked[:24], "observed_events": events, "cases_per_section": sections,
            "known_findings_observed": ["%s/%s" % (k[0], k[1]) for k in sorted(hit)],
            "inconclusive_cases": len(inconclusive), "build_s": round(tb, 1),
            "flavours": sorted(set(r["flavour"] for r in runs)),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        rd = os.path.join(ev_dir, "replay")
        os.makedirs(rd, exist_ok=True)
        shown = set()
        for v in new:
            key = (v["section"], v["kind"])
            if key in shown:
                continue
            shown.add(key)
            path = os.path.join(rd, "%s-%d.json" % (pid, len(shown)))
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": tier, "seed": seed, **v}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  section=%s case=%s kind=%s (%s)" % (v["section"], v["case"], v["kind"], v["flavour"]))
            m = re.search(r"(ERROR: AddressSanitizer.*|.*runtime error:.*|WARNING: ThreadSanitizer.*|.*Assertion .*failed.*)", v["msg"])
            print("  " + (m.group(1) if m else v["msg"][:700]).replace("\n", "\n  "))
        return 1
    if errors:
        print("CHECK ERROR:", errors[0][:3000])
        return 2
    floor = cfg.get("min_events", {})
    for k, n in floor.items():
        if events.get(k, 0) < n:
            print("CHECK ERROR: observed only %d of event '%s' (needs %d)" % (events.get(k, 0), k, n))
            return 2
    if cases == 0 or len(hashes) == 0:
        print("CHECK ERROR: nothing was observed")
        return 2
    if len(inconclusive) > 3:
        print("CHECK ERROR: %d cases inconclusive (timeouts)" % len(inconclusive))
        return 2
    print("HELD property=%s tier=%s seed=%d cases=%d distinct=%d events=%d wall=%.1fs (build %.1fs)" % (
        pid, tier, seed, cases, len(hashes), sum(events.values()), wall, tb))
    return 0


def replay(path):
    v = json.load(open(path))
    cfg = config().get(v["property"], {})
    fl = v.get("flavour", "san")
    bins, errs = build(v["property"], cfg, [fl])
    if bins is None:
        print(errs[0][1][:5000])
        return 2
    with tempfile.TemporaryDirectory() as d:
        a = [bins[fl], "--seed", str(v["seed"]), "--tier", v["tier"], "--section", v["section"], "--case", str(v["case"]),
             "--out", d + "/o.json", "--scratch", d]
        if fl == "vg":
            a = ["valgrind", "-q", "--error-exitcode=99", "--track-origins=yes"] + a
        p = subprocess.run(a, env=env_for(), cwd=d)
        if os.path.exists(d + "/o.json"):
            for x in json.load(open(d + "/o.json"))["violations"]:
                print(json.dumps(x, indent=1))
        return p.returncode


if __name__ == "__main__":
    sys.exit(main())
