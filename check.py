#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property (see DESIGN.md)
check.py --replay FILE                      run the execution of a replay file again
check.py --build                            only build

exit 0: held on everything observed (or only listed findings), 1: VIOLATION,
2: no verdict (build failure, watchdog, nothing observed)."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, threading, time, glob, queue

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MACORO_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
import genconfig
import plan

NW = max(1, min(8, os.cpu_count() or 8))
CONFIGS = ("own", "std")
THOROUGH_CONFIGS = CONFIGS + ("clang",)     # whatever of the harnesses clang accepts
CXX = "g++"
HFLAGS = ["-std=c++20", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread",
          "--param", "tsan-instrument-func-entry-exit=0", "-w"]
CLANG = ["clang++", "-std=c++20", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-w"]
RFLAGS = ["-std=c++20", "-O2", "-g", "-fno-omit-frame-pointer", "-fno-threadsafe-statics", "-w"]
WRAP = "-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "malloc", "calloc", "free"))
# own: macoro's own stop tokens, assertions on; std: std::stop_token, and -O0, where no access is optimised away
# own is also built with UBSan's checks as traps (they arrive as crash-ILL) and libstdc++'s assertions
DEFS = {"own": ["-O1", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=undefined", "-fno-sanitize=vptr", "-fsanitize-undefined-trap-on-error"],
        "std": ["-O0", "-DNDEBUG"], "clang": ["-O2", "-DNDEBUG"]}


# C++20 coroutines hand over to one another by tail calls, without which the stack grows
HDEFS = {("own", "c26_stack"): ["-foptimize-sibling-calls"]}
NOT_CLANG = {"c26_stack"}       # its tail calls are under no obligation in MC_ coroutines


def compiler(c, h=None):
    return [*CLANG, *DEFS[c]] if c == "clang" else [CXX, *HFLAGS, *DEFS[c], *HDEFS.get((c, h), [])]


def configs(tier):
    return THOROUGH_CONFIGS if tier == "thorough" and shutil.which("clang++") else CONFIGS


# what the runtime must answer for each program of rt/selftest/toy.cpp (ok_*: nothing)
SELFTEST = {"bad_race": "data-race", "bad_mp_relaxed": "data-race", "bad_sb_relacq": "property", "bad_uaf": "data-race",
            "bad_uaf_seq": "use-after-free", "bad_leak": "leak", "bad_lost_wakeup": "deadlock", "bad_dead_stack": "dead-stack",
            "bad_own_stack": "dead-stack", "bad_assert": "assert", "bad_livelock": "livelock", "bad_double_free": "double-free",
            "bad_oob": "out-of-bounds", "bad_fault_leak": "leak", "bad_shift": "crash", "bad_index": "crash"}
SELFTEST_MEMCHECK = {"vg_heap", "vg_stack"}      # quiet, but kind "uninitialised" under memcheck


class NoVerdict(Exception):
    pass


# ------------------------------------------------------------------- building
def tree_files():
    fs = []
    for d in ("macoro",):
        for r, _, names in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(r, n) for n in names if n.endswith((".h", ".cpp", ".in", ".hpp", ".inl"))]
    return sorted(fs)


def digest():
    h = hashlib.sha256()
    own = sorted(glob.glob(HERE + "/h/*") + glob.glob(HERE + "/rt/*.*") + glob.glob(HERE + "/rt/selftest/*.cpp") + [HERE + "/tools/genconfig.py"])
    for f in tree_files() + own:
        if os.path.relpath(f, REPO) == "macoro/config.h":
            continue
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(repr((HFLAGS, CLANG, RFLAGS, WRAP, DEFS, sorted(HDEFS.items()))).encode())
    return h.hexdigest()[:16]


def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise NoVerdict("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))


def selftest(toy, ex):
    """the runtime's oracles answer for known programs as they should, or no check gives a verdict"""
    def one(case, memcheck):
        cmd = [toy, "--case", case, "--seed", "1", "--count", "50" if memcheck else "3000", "--out", "%s.%s.%d" % (toy, case, memcheck)]
        if memcheck:
            cmd = ["valgrind", "-q", "--soname-synonyms=somalloc=nouserintercepts", "--error-limit=no"] + cmd
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        except (OSError, subprocess.TimeoutExpired) as e:
            raise NoVerdict("self-test %s: %s" % (case, e))
        kind = parse_report(p.stdout.decode("utf-8", "replace")).get("kind") if p.returncode == 66 else None
        expected = "uninitialised" if memcheck and case in SELFTEST_MEMCHECK else SELFTEST.get(case)
        if kind != expected or p.returncode not in (0, 66):
            raise NoVerdict("self-test %s%s: %s (exit %d), expected %s" % (case, " under memcheck" if memcheck else "", kind, p.returncode, expected))
    cases = [k for _, k, _ in list_cases(toy)]
    if not set(SELFTEST) | SELFTEST_MEMCHECK <= set(cases):
        raise NoVerdict("self-test: cases missing")
    try:
        for f in [ex.submit(one, k, False) for k in cases] + [ex.submit(one, k, True) for k in cases if k in SELFTEST_MEMCHECK or k.startswith("ok_")]:
            f.result()
    finally:
        for f in glob.glob(toy + ".*.[01]"):
            os.unlink(f)


UNBUILT = {}


def build(harnesses, cfgs=CONFIGS):
    """-> {(config, harness): binary}; without those that do not compile (UNBUILT says why)"""
    key = digest()
    root = os.path.join(HERE, ".build")
    out = os.path.join(root, key)
    os.makedirs(out, exist_ok=True)
    os.utime(out)
    for d in sorted(glob.glob(root + "/*"), key=os.path.getmtime)[:-3]:
        if d != out:
            shutil.rmtree(d, ignore_errors=True)
    jobs = []
    bins = {}
    need = [(c, h) for c in cfgs for h in harnesses if not (c == "clang" and h in NOT_CLANG)]
    todo = []
    for c, h in need:
        b = os.path.join(out, c, h)
        bins[(c, h)] = b
        if not os.path.exists(b):
            todo.append((c, h))
    if not todo:
        return bins
    # the sources are compiled from a snapshot: an edit in the middle of a build cannot mix trees
    src = os.path.join(out, "src")
    if not os.path.isdir(src + "/macoro"):
        tmp = src + ".%d" % os.getpid()
        for f in tree_files():
            rel = os.path.relpath(f, REPO)
            if rel == "macoro/config.h":
                continue        # generated below, per configuration
            os.makedirs(os.path.dirname(os.path.join(tmp, rel)), exist_ok=True)
            shutil.copyfile(f, os.path.join(tmp, rel))
        try:
            os.rename(tmp, src)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    cpps = [os.path.relpath(f, src) for f in glob.glob(src + "/macoro/*.cpp") + glob.glob(src + "/macoro/detail/*.cpp")
            if "win32" not in f]
    pid = "%d" % os.getpid()
    objs = {c: [] for c in cfgs}
    with cf.ThreadPoolExecutor(NW) as ex:
        rt = os.path.join(out, "rt.%s.o" % pid)
        maybe = []
        first = [ex.submit(sh, [CXX, *RFLAGS, "-c", HERE + "/rt/schedrt.cpp", "-o", rt], out)]
        selfok = os.path.join(out, "selftest")
        toy = os.path.join(out, "toy.%s" % pid)
        if not os.path.exists(selfok):
            first.append(ex.submit(sh, [CXX, *HFLAGS, *DEFS["own"], "-c", HERE + "/rt/selftest/toy.cpp", "-o", toy + ".o"], out))
        for c in {c for c, _ in todo}:
            d = os.path.join(out, c)
            genconfig.generate(src + "/macoro/config.h.in", d + "/gen/macoro/config.h", c == "std")
        order = sorted(todo, key=lambda t: -os.path.getsize("%s/h/%s.cpp" % (HERE, t[1])))
        hobj = {}
        harn = {}
        for c, h in order:
            d = os.path.join(out, c)
            hobj[(c, h)] = os.path.join(d, "%s.%s.o" % (h, pid))
            harn[(c, h)] = ex.submit(sh, [*compiler(c, h), "-I" + d + "/gen", "-I" + src, "-I" + HERE + "/h",
                                          "-c", "%s/h/%s.cpp" % (HERE, h), "-o", hobj[(c, h)]], d)
        for c in {c for c, _ in todo}:
            d = os.path.join(out, c)
            for s in cpps:
                if c == "std" and "detail/stop_" in s:
                    continue        # as in macoro's own build: std::stop_token replaces them
                o = os.path.join(d, "lib_%s.%s.o" % (os.path.basename(s), pid))
                objs[c].append(o)
                (maybe if c == "clang" else first).append(ex.submit(sh, [*compiler(c), "-I" + d + "/gen", "-I" + src, "-c", src + "/" + s, "-o", o], d))
        for f in first:
            f.result()
        for f in maybe:
            f.exception()
        for k, f in harn.items():
            if f.exception():
                UNBUILT[k] = str(f.exception())
        if not all(os.path.exists(o) for o in objs.get("clang", [])):
            todo = [t for t in todo if t[0] != "clang"]
        todo = [t for t in todo if os.path.exists(hobj[t])]
        second = []
        for c, h in todo:
            tmp = bins[(c, h)] + "." + pid
            second.append((ex.submit(sh, [CXX, "-no-pie", hobj[(c, h)], *objs[c], rt, "-o", tmp, "-ldl", "-pthread", WRAP], out), tmp, bins[(c, h)]))
        if not os.path.exists(selfok):
            sh([CXX, "-no-pie", toy + ".o", rt, "-o", toy, "-ldl", "-pthread", WRAP], out)
            selftest(toy, ex)
            os.replace(toy, selfok)
            os.unlink(toy + ".o")
        for f, tmp, b in second:
            f.result()
            os.replace(tmp, b)
    for o in list(hobj.values()) + [o for v in objs.values() for o in v] + [rt]:
        if os.path.exists(o):
            os.unlink(o)
    return {k: b for k, b in bins.items() if os.path.exists(b)}


# ----------------------------------------------------------------- executions
_list_cache = {}


def list_cases(b):
    if b not in _list_cache:
        p = subprocess.run([b, "--list"], stdout=subprocess.PIPE, text=True, timeout=60)
        if p.returncode:
            raise NoVerdict("%s --list failed" % b)
        _list_cache[b] = [(x.split()[0], x.split()[1], int(x.split()[2])) for x in p.stdout.splitlines() if x.strip()]
    return _list_cache[b]


def parse_report(text):
    r = {"raw": text}
    for line in text.splitlines():
        m = re.match(r"(kind|key|case|seed|step|thread|desc|detail): (.*)", line)
        if m:
            r.setdefault(m.group(1), m.group(2))
    return r


def symbolize(binary, text):
    out = []
    for line in text.splitlines():
        out.append(line)
        m = re.match(r"(stack[-\w]*|other|alloc-stack|free-stack|owner-stack):((?: [0-9a-f]+)+)\s*$", line)
        if not m:
            continue
        try:
            p = subprocess.run(["addr2line", "-Cfsie", binary] + ["0x" + a for a in m.group(2).split()],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
            ls = p.stdout.splitlines()
            for f, w in zip(ls[::2], ls[1::2]):
                if "schedrt.cpp" in w or w.startswith("??"):
                    continue
                out.append("      %s  at %s" % (f[:160], w))
        except Exception:
            pass
    return "\n".join(out)



class Job:
    def __init__(self, cfg, harness, prop, case, weight, binary, count):
        self.cfg, self.harness, self.prop, self.case, self.weight = cfg, harness, prop, case, weight
        self.binary, self.count = binary, count


def relevant(prop, kind):
    """which oracle decides which property (DESIGN.md, Verdicts)"""
    if prop == "C22":
        return kind not in ("data-race", "property", "deadlock", "livelock")
    if prop == "C23":
        return kind == "data-race"
    return True


def load_known():
    known = []
    for line in open(HERE + "/known_findings.txt"):
        m = re.match(r"known: property=(\S+) case=(\S+) key=(\S+) (.*)", line)
        if m:
            known.append(m.groups())
    return known


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.lock = threading.Lock()
        self.tot = {}
        self.events = {}
        self.cases = {}
        self.samples = []
        self.hashes = set()
        self.violations = []
        self.known_hits = {}
        self.other = {}
        self.timeouts = []
        self.stop = False
        self.mc = {"executions": 0, "memory_accesses": 0}
        self.mc_cases = set()
        self.known = load_known()

    def one_process(self, job, w, start, stride, tmp):
        out, hs = tmp + ".json", tmp + ".hash"
        cmd = [job.binary, "--case", job.case, "--seed", str(self.seed), "--count", str(job.count), "--start", str(start),
               "--stride", str(stride), "--out", out, "--hashes", hs, "--cpu", str(w)]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=3600)
            text = p.stdout.decode("utf-8", "replace")
            rc = p.returncode
        except subprocess.TimeoutExpired:
            return 71, "timeout", None
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
            os.unlink(out)
        h = b""
        if os.path.exists(hs):
            h = open(hs, "rb").read()
            os.unlink(hs)
        if res:
            with self.lock:
                for k, v in res.items():
                    if k == "max_threads":
                        self.tot[k] = max(self.tot.get(k, 0), v)
                    elif isinstance(v, (int, float)) and not isinstance(v, bool):
                        self.tot[k] = self.tot.get(k, 0) + v
                for k, v in res["events"].items():
                    self.events[k] = self.events.get(k, 0) + v
                for k, v in res["cases"].items():
                    self.cases[(job.cfg, k)] = self.cases.get((job.cfg, k), 0) + v
                if len(self.samples) < 400:
                    for s in res["samples"].splitlines()[:1]:
                        self.samples.append(job.cfg + ": " + s)
                import array
                a = array.array("Q")
                a.frombytes(h[:len(h) // 8 * 8])
                if len(self.hashes) < 30_000_000:
                    self.hashes.update(a)
        return rc, text, res

    def shard(self, job, w, shard, nshard, tmpdir):
        start = shard
        tmp = os.path.join(tmpdir, "%s.%s.%d" % (job.cfg, job.case, shard))
        while not self.stop and start < job.count:
            rc, text, res = self.one_process(job, w, start, nshard, tmp)
            if rc == 0:
                return
            rep = parse_report(text)
            if rc == 66 or (rc < 0):
                if "seed" not in rep:       # died without a report
                    rep.update(kind="crash", key="died-%d" % rc, case=job.case, seed="?", detail=text[-500:])
                kind, key = rep.get("kind", "?"), rep.get("key", "?")
                if relevant(self.prop, kind):
                    hit = [k for k in self.known if k[0] == self.prop and k[1] == job.case and k[2] == key]
                    with self.lock:
                        if hit:
                            self.known_hits[hit[0]] = self.known_hits.get(hit[0], 0) + 1
                        else:
                            self.violations.append((job, rep))
                            self.stop = True
                            return
                else:
                    with self.lock:
                        n = "%s/%s" % (job.case, kind)
                        self.other[n] = self.other.get(n, 0) + 1
                        if sum(self.other.values()) > 200:
                            return
                if rep.get("seed", "?").isdigit():
                    k = int(rep["seed"]) // 16 - self.seed * 1000003
                    with self.lock:
                        self.tot["executions"] = self.tot.get("executions", 0) + max(0, (k - start) // nshard + 1) * job.weight
                    start = k + nshard
                else:
                    return
            elif rc == 71:
                # the watchdog: run this one execution again, alone; only a repeat counts
                s = rep.get("seed")
                again = None
                if s:
                    try:
                        p = subprocess.run([job.binary, "--case", job.case, "--exec", s], stdout=subprocess.PIPE,
                                           stderr=subprocess.STDOUT, timeout=600)
                        again = p.returncode
                    except subprocess.TimeoutExpired:
                        again = 71
                with self.lock:
                    self.timeouts.append("%s %s exec=%s again=%s" % (job.cfg, job.case, s, again))
                if again == 71 and not self.stop:
                    rep.update(kind="hang", key="no-progress", case=job.case,
                               detail="the execution makes no visible step (twice): a loop without synchronisation operations")
                    with self.lock:
                        if self.prop not in ("C22", "C23"):
                            self.violations.append((job, rep))
                            self.stop = True
                    return
                if again == 66:
                    continue
                if s is None:
                    return
                start = int(s) // 16 - self.seed * 1000003 + nshard
            else:
                raise NoVerdict("%s %s ended with %d:\n%s" % (job.cfg, job.case, rc, text[-2000:]))

    # ------------------------------------------------ memcheck (C22 only)
    def memcheck_jobs(self, tier, bins, harnesses):
        n = plan.MEMCHECK * (plan.THOROUGH if tier == "thorough" else 1)
        out = []
        for h in harnesses:
            for c in CONFIGS:
                if (c, h) not in bins:
                    continue
                cases = [k for _, k, _ in list_cases(bins[(c, h)]) if k not in plan.NO_MEMCHECK]
                if cases:
                    out.append((c, h, bins[(c, h)], cases, n))
        return out

    def memcheck_one(self, mj, half, tmp):
        cfg, h, binary, cases, n = mj
        start = half
        while start < n and not self.stop:
            out = "%s.mc.%s.%s.%d.json" % (tmp, cfg, h, half)
            cmd = ["valgrind", "-q", "--soname-synonyms=somalloc=nouserintercepts", "--error-limit=no", binary,
                   "--case", ",".join(cases), "--seed", str(self.seed + 7), "--count", str(n), "--start", str(start), "--stride", "2", "--out", out]
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=3600)
            except FileNotFoundError:
                raise NoVerdict("valgrind is not installed")
            text, rc = p.stdout.decode("utf-8", "replace"), p.returncode
            if rc == 0:
                res = json.load(open(out))
                os.unlink(out)
                with self.lock:
                    self.mc["executions"] += res["executions"]
                    self.mc["memory_accesses"] += res["accesses"]
                    for k in res["cases"]:
                        self.mc_cases.add((cfg, k))
                return
            rep = parse_report(text)
            if rc == 66 and "seed" in rep:
                if relevant(self.prop, rep.get("kind", "?")):
                    job = Job(cfg, h, self.prop, rep.get("case", "?"), 1, binary, n)
                    with self.lock:
                        self.violations.append((job, rep))
                        self.stop = True
                    return
                with self.lock:
                    k = "memcheck %s/%s" % (rep.get("case"), rep.get("kind"))
                    self.other[k] = self.other.get(k, 0) + 1
                    if sum(self.other.values()) > 200:
                        return
                start = (int(rep["seed"]) // 16 - (self.seed + 7) * 1000003) + 2
            elif rc == 71:
                with self.lock:
                    self.timeouts.append("memcheck %s %s exec=%s" % (cfg, h, rep.get("seed")))
                return      # too slow under memcheck; the ordinary runs watch for hangs
            else:
                raise NoVerdict("memcheck %s %s ended with %d:\n%s" % (cfg, h, rc, text[-2000:]))

    def memcheck(self, mjobs):
        if self.stop:
            return
        tmp = os.path.join(HERE, ".build", "mc.%d" % os.getpid())
        try:
            with cf.ThreadPoolExecutor(NW) as ex:
                for f in [ex.submit(self.memcheck_one, m, half, tmp) for m in mjobs for half in (0, 1)]:
                    f.result()
        finally:
            for f in glob.glob(tmp + ".*"):
                os.unlink(f)

    def run(self, jobs):
        tmpdir = os.path.join(HERE, ".build", "run.%d" % os.getpid())
        os.makedirs(tmpdir, exist_ok=True)
        try:
            q = queue.Queue()
            # one shard of every case for each worker; rotated so that different cases run side by side
            per = [[] for _ in range(NW)]
            for i, j in enumerate(jobs):
                for s in range(NW):
                    per[s].append((j, s))
            for s in range(NW):
                k = (len(jobs) * s) // NW
                per[s] = per[s][k:] + per[s][:k]
            errs = []

            def worker(w):
                for j, s in per[w]:
                    if self.stop or errs:
                        return
                    try:
                        self.shard(j, w, s, NW, tmpdir)
                    except Exception as e:
                        errs.append(e)
                        return
            ts = [threading.Thread(target=worker, args=(w,)) for w in range(NW)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if errs and not self.violations:
                raise errs[0]
        finally:
            shutil.rmtree(tmpdir, ignore_errors=True)


def plan_jobs(prop, tier, bins, harnesses):
    jobs = []
    for h in harnesses:
        for c in configs(tier):
            if (c, h) not in bins:
                continue
            for p, case, weight in list_cases(bins[(c, h)]):
                if prop in ("C22", "C23"):
                    pass
                elif p != prop:
                    continue
                jobs.append(Job(c, h, p, case, weight, bins[(c, h)], plan.count(prop, tier, case)))
    return jobs


def write_replay(prop, job, rep):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s-%s-%s.txt" % (prop, job.cfg, job.case, rep.get("seed", "x"))
    f = os.path.join(d, name)
    with open(f, "w") as o:
        o.write("property: %s\nconfig: %s\nharness: %s\ncase: %s\nseed: %s\nrerun: python3 %s/check.py --replay %s\n\n" %
                (prop, job.cfg, job.harness, job.case, rep.get("seed"), HERE, f))
        o.write(symbolize(job.binary, rep["raw"]) + "\n")
    return f


def replay(f):
    t = open(f).read()
    g = lambda k: re.search("^%s: (.*)$" % k, t, re.M).group(1)
    bins = build([g("harness")], [g("config")])
    if not bins:
        raise NoVerdict(*UNBUILT.values())
    b = bins[(g("config"), g("harness"))]
    vg = ["valgrind", "-q", "--soname-synonyms=somalloc=nouserintercepts"] if re.search("^kind: uninitialised", t, re.M) else []
    p = subprocess.run(vg + [b, "--case", g("case"), "--exec", g("seed"), "-v"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(symbolize(b, p.stdout.decode("utf-8", "replace")))
    print("exit code", p.returncode)
    return 1 if p.returncode == 66 else 0


def main():
    args = sys.argv[1:]
    if args[:1] == ["--replay"]:
        return replay(args[1])
    allh = plan.harnesses()
    if args[:1] == ["--build"]:
        t = time.time()
        build(allh)
        if UNBUILT:
            raise NoVerdict(*list(UNBUILT.values())[:1])
        print("built in %.1f s" % (time.time() - t))
        return 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    hs = allh if prop in ("C22", "C23") else [h for h in allh if h.split("_")[0].upper() == prop]
    if not hs:
        raise NoVerdict("no harness for " + prop)
    bins = build(hs, configs(tier))
    tb = time.time() - t0
    r = Run(prop, tier, seed)
    jobs = plan_jobs(prop, tier, bins, hs)
    if "--case" in args:
        jobs = [j for j in jobs if j.case == args[args.index("--case") + 1]]
    r.run(jobs)
    if prop == "C22" and "--case" not in args:
        r.memcheck(r.memcheck_jobs(tier, bins, hs))
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(r.tot.get("executions", 0)),
            "distinct_nontrivial": len(r.hashes),
            "rule": plan.RULE,
            "samples": r.samples[::max(1, len(r.samples) // 12)][:14],
            "multi_threaded_executions_with_context_switches": r.tot.get("interleaved", 0),
            "scheduling_steps": r.tot.get("steps", 0),
            "context_switches": r.tot.get("switches", 0),
            "preemptions": r.tot.get("preemptions", 0),
            "stale_atomic_reads_injected": r.tot.get("stale_reads", 0),
            "virtual_time_jumps": r.tot.get("timer_jumps", 0),
            "memory_accesses_checked": r.tot.get("accesses", 0),
            "atomic_operations": r.tot.get("atomics", 0),
            "lock_operations": r.tot.get("locks", 0),
            "allocations_tracked": r.tot.get("allocations", 0),
            "max_threads": r.tot.get("max_threads", 0),
            "executions_per_case": {"%s/%s" % k: v for k, v in sorted(r.cases.items())},
            "monitor_events": dict(sorted(r.events.items())),
            "configurations": list(configs(tier)),
            **({"not_compiled_by_clang": [h for h in hs if ("clang", h) not in bins]} if "clang" in configs(tier) else {}),
            "executions_ended_by_another_property's_oracle": r.other,
            "watchdog": r.timeouts,
            **({"under_valgrind_memcheck": {**r.mc, "cases": len(r.mc_cases)}} if prop == "C22" else {}),
        },
        "assumptions": plan.ASSUMPTIONS,
        "wall_s": round(wall, 2), "build_s": round(tb, 2),
        "violations": len(r.violations),
        "known_findings_seen": {"%s %s" % (k[1], k[2]): v for k, v in r.known_hits.items()},
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)
    for k in r.known_hits:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k[1], k[3]))
    if r.violations:
        for job, rep in r.violations[:3]:
            f = write_replay(prop, job, rep)
            print("%s: %s in case %s (%s): %s | %s" % (rep.get("kind"), rep.get("key"), job.case, job.cfg, rep.get("detail", ""), rep.get("desc", "")))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    # what could not be observed has no verdict
    unbuilt = [(k, m) for k, m in sorted(UNBUILT.items()) if k[0] != "clang"]
    if unbuilt:
        raise NoVerdict("; ".join("%s does not compile in configuration %s" % (h, c) for (c, h), _ in unbuilt) + "\n" + unbuilt[0][1])
    missing = [j.cfg + "/" + j.case for j in jobs if not r.cases.get((j.cfg, j.case))
               and not any(o.startswith(j.case + "/") for o in r.other) and not any(k[1] == j.case for k in r.known_hits)]
    if prop == "C22" and "--case" not in args:
        missing += ["memcheck " + m[0] + "/" + m[1] for m in r.memcheck_jobs(tier, bins, hs) if not any((m[0], k) in r.mc_cases for k in m[3])
                    and not any(o.startswith("memcheck") for o in r.other) and not r.timeouts]
    if missing or not jobs:
        raise NoVerdict("nothing observed for: " + ", ".join(missing or [prop]))
    print("%s held on %d executions (%d distinct) in %.1f s (build %.1f s)" %
          (prop, ev["coverage"]["evaluations"], len(r.hashes), wall, tb))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print("NO VERDICT:", e)
        sys.exit(2)
