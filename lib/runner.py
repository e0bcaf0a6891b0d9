"""Builds a property's monitors from /repo's working tree, runs them in parallel shards, judges what
they observed, and writes evidence/<id>.json.

exit 0: nothing violated (known findings are printed); exit 1 + VIOLATION line: violated;
exit 2: the check itself could not give an answer (build failure, nothing observed, ...).
"""
import fcntl, fnmatch, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/g++-13"
NCPU = os.cpu_count() or 4
HANG_RERUN_BUDGET = 4

BASE = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-Wno-changes-meaning", "-w", "-mavx",
        "-DNEOLIB_HOSTED_ENVIRONMENT", "-pthread"]
VARIANTS = {
    # vptr: needs every RTTI'd object alive, trips on intended CRTP; alignment/nonnull: benign memcpy(0,0) idioms
    "asan": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-fno-sanitize=vptr,nonnull-attribute,alignment"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O2", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
}
LIBS = ["-lboost_chrono", "-lboost_filesystem", "-lboost_thread", "-lboost_fiber", "-lboost_context",
        "-lboost_locale", "-lboost_system", "-lssl", "-lcrypto", "-lz", "-latomic", "-ldl"]


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sha_tree(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


def make_overlay():
    """Copies of the two headers this toolchain's boost/g++ reject, adjusted only in the rejected syntax."""
    ov = os.path.join(BUILD, "overlay")
    def put(rel, text):
        p = os.path.join(ov, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p, encoding="utf-8", errors="surrogateescape").read() != text:
            with open(p, "w", encoding="utf-8", errors="surrogateescape") as f:
                f.write(text)
    rd = lambda p: open(p, encoding="utf-8", errors="surrogateescape", newline="").read()
    put("neolib/neolib_export.hpp", rd(os.path.join(VERIF, "overlay/neolib_export.hpp")))
    m = rd(os.path.join(REPO, "include/neolib/core/mutex.hpp"))
    put("neolib/core/mutex.hpp", re.sub(r"iActiveMutex\.emplace<", "iActiveMutex.template emplace<", m))
    t = rd(os.path.join(REPO, "include/neolib/chrono/tsc_clock.hpp"))
    # g++: default member initializers of a nested class are not usable in a default argument
    t = re.sub(r"static void init\(options opt = \{\}\) noexcept", r"static void init() noexcept { init(options{}); } static void init(options opt) noexcept", t)
    put("neolib/chrono/tsc_clock.hpp", t)
    return ov


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.lock = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.overlay = make_overlay()
        self.common = sha_tree([os.path.join(REPO, "include"), self.overlay, os.path.join(VERIF, "overlay"),
                                os.path.join(VERIF, "lib/vf.hpp")])

    def flags(self, job):
        return BASE + VARIANTS[job["variant"]] + job.get("flags", []) + [
            "-include", os.path.join(VERIF, "overlay/shim.hpp"),
            "-I", self.overlay, "-I", os.path.join(REPO, "include"),
            "-I", os.path.join(VERIF, "lib"), "-I", os.path.join(VERIF, "harness")]

    def obj(self, job, src, tag=""):
        fl = self.flags(job) + (["-DVF_REPO_SRC"] if src.startswith(REPO) else job.get("defs", []))
        inc = b""
        if src.startswith(VERIF):
            inc = sha_tree([os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".hpp")]).encode()
        key = hashlib.sha256((self.common + repr(fl) + src).encode() + inc + open(src, "rb").read()).hexdigest()[:24]
        out = os.path.join(BUILD, "obj", job["variant"], re.sub(r"[^A-Za-z0-9]+", "_", os.path.relpath(src, "/")) + tag + "." + key + ".o")
        return out, [CXX] + fl + ["-c", src, "-o"]

    def build(self, jobs):
        """-> {job name: binary}"""
        todo, links = {}, []
        for j in jobs:
            objs = []
            srcs = [os.path.join(VERIF, "harness", j["src"])] + [os.path.join(REPO, "src", s) for s in j.get("lib", [])]
            for s in srcs:
                out, cmd = self.obj(j, s)
                objs.append(out)
                if not os.path.exists(out):
                    todo[out] = cmd
            links.append((j, objs))
        def comp(item):
            out, cmd = item
            os.makedirs(os.path.dirname(out), exist_ok=True)
            # stale objects of the same source
            stem = os.path.basename(out).rsplit(".", 2)[0]
            for f in os.listdir(os.path.dirname(out)):
                try:
                    if f.startswith(stem + ".") and f != os.path.basename(out) and time.time() - os.path.getmtime(os.path.join(os.path.dirname(out), f)) > 3600:
                        os.unlink(os.path.join(os.path.dirname(out), f))
                except OSError: pass
            r = subprocess.run(cmd + [out + ".tmp"], capture_output=True, text=True)
            if r.returncode:
                return "build failed: %s\n%s" % (" ".join(cmd[-3:]), r.stderr[-6000:])
            os.replace(out + ".tmp", out)
        with ThreadPoolExecutor(NCPU) as ex:
            errs = [e for e in ex.map(comp, todo.items()) if e]
        if errs:
            raise CheckError("\n".join(errs))
        bins = {}
        for j, objs in links:
            h = hashlib.sha256(repr((objs, j.get("libs"))).encode()).hexdigest()[:16]
            b = os.path.join(BUILD, "bin", "%s.%s.%s" % (j["name"], j["variant"], h))
            if not os.path.exists(b):
                os.makedirs(os.path.dirname(b), exist_ok=True)
                for f in os.listdir(os.path.dirname(b)):
                    fp = os.path.join(os.path.dirname(b), f)
                    if f.startswith("%s.%s." % (j["name"], j["variant"])) and time.time() - os.path.getmtime(fp) > 3600:
                        os.unlink(fp)
                r = subprocess.run([CXX] + VARIANTS[j["variant"]] + ["-pthread"] + objs + LIBS + j.get("libs", []) + ["-o", b + ".tmp"], capture_output=True, text=True)
                if r.returncode:
                    raise CheckError("link failed: %s\n%s" % (j["name"], r.stderr[-6000:]))
                os.replace(b + ".tmp", b)
            bins[j["name"]] = b
        return bins

    def release(self):
        fcntl.flock(self.lock, fcntl.LOCK_UN)


FRAME = re.compile(r"^\s*#(\d+) (?:0x[0-9a-f]+ in )?(.*?) (/\S+?):(\d+)", re.M)


def strip_fn(fn):
    """function name without template and parameter noise"""
    out, depth = [], 0
    fn = re.sub(r"\[abi:[^\]]*\]", "", fn)
    fn = fn.replace("operator<<", "operator_shl").replace("operator>>", "operator_shr").replace("operator<=>", "operator_cmp").replace("operator<=", "operator_le").replace("operator>=", "operator_ge").replace("operator<", "operator_lt").replace("operator>", "operator_gt").replace("operator->", "operator_arrow").replace("operator()", "operator_call").replace("(anonymous namespace)", "anon")
    for c in fn:
        if c in "<(": depth += 1
        elif c in ">)": depth = max(0, depth - 1)
        elif depth == 0: out.append(c)
    s = "".join(out).strip().split()
    s = [x for x in s if x not in ("const", "noexcept", "static")]
    return s[-1] if s else "?"


def repo_frames(text):
    r = []
    for m in FRAME.finditer(text):
        f = m.group(3)
        if f.startswith(REPO + "/") or "/build/overlay/neolib/" in f:
            r.append(strip_fn(m.group(2)))
    return r


def classify(err):
    """sanitizer / abort output -> stable key"""
    m = re.search(r"ERROR: AddressSanitizer: ([A-Za-z0-9_-]+)", err)
    if m:
        fr = repo_frames(err[m.start():])
        return "asan:%s:%s" % (m.group(1), fr[0] if fr else "?")
    m = re.search(r"^(\S+?):(\d+):(\d+): runtime error: (.*)$", err, re.M)
    if m:
        kind = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?|'[^']*'", "N", m.group(4)).strip()[:70]
        fr = repo_frames(err[m.start():])
        return "ubsan:%s:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"[^A-Za-z]+", "-", kind), fr[0] if fr else "?")
    m = re.search(r"Assertion '?(.*?)'? failed", err)
    if m:
        return "assert:%s" % re.sub(r"\s+", "", m.group(1))[:80]
    m = re.search(r"terminate called after throwing an instance of '(.*?)'", err)
    if m:
        return "terminate:%s" % m.group(1)
    if "terminate called" in err:
        return "terminate"
    return None


def excerpt(err):
    m = re.search(r"ERROR: AddressSanitizer|runtime error:|Assertion|terminate called", err)
    return err[max(0, m.start() - 200):m.start() + 5000] if m else err[-5000:]


def tsan_reports(text):
    """-> [(key, report)]"""
    out = []
    for block in re.split(r"={10,}", text):
        m = re.search(r"(?:WARNING|ERROR|FATAL): ThreadSanitizer: (.*?)(?: \(pid=\d+\))?$", block, re.M)
        if not m:
            continue
        kind = re.sub(r"\(.*", "", m.group(1)).strip().replace(" ", "-")
        tops = []
        for part in re.split(r"\n\s*\n", block):
            if re.search(r"(Write|Read|Previous|Atomic|Mutex|atomic)", part.strip().split("\n")[0]) or part.strip().startswith("WARNING"):
                fr = repo_frames(part)
                if fr:
                    tops.append(fr[0])
        out.append(("tsan:%s:%s" % (kind, "|".join(sorted(set(tops[:2]))) or "?"), block.strip()[:6000]))
    return out


ENV_BASE = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1024:detect_stack_use_after_return=0:handle_abort=0:symbolize=1:malloc_context_size=12:quarantine_size_mb=32",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "LC_ALL": "C.UTF-8", "HOME": "/root", "PATH": "/usr/bin:/bin",
}


STOP = {"crashes": 0, "known": [], "deadline": None}   # a broken tree is reported after a few crashes, not after thousands


class Shard:
    def __init__(self, job, binary, tier, seed, start, count, scratch, idx):
        self.job, self.binary, self.tier, self.seed = job, binary, tier, seed
        self.start, self.end = start, start + count
        self.dir = os.path.join(scratch, "%s-%d" % (job["name"], idx))
        os.makedirs(self.dir)
        self.fails, self.outs, self.crashes, self.inconclusive, self.lost = [], [], 0, 0, 0

    def once(self, start, count, budget=1, tag="r"):
        d = os.path.join(self.dir, tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "tmp"))
        cmd = [self.binary, "--seed", str(self.seed), "--start", str(start), "--count", str(count), "--tier", self.tier,
               "--fails", d + "/fails", "--out", d + "/out", "--progress", d + "/progress", "--tmp", d + "/tmp", "--budget", str(budget)]
        env = dict(ENV_BASE)
        env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:log_path=%s/tsan:history_size=4:report_signal_unsafe=0:detect_deadlocks=%d" % (d, 1 if self.job.get("deadlocks", True) else 0)
        env.update(self.job.get("env", {}))
        if self.job.get("noaslr"):
            cmd = ["setarch", "-R"] + cmd
        with open(d + "/err", "wb") as e:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=e, stdin=subprocess.DEVNULL, cwd=d + "/tmp", env=env, start_new_session=True)
            killed = False
            try:
                rc = p.wait(timeout=self.job.get("timeout", 500) * max(1, budget / 2))
            except subprocess.TimeoutExpired:
                killed = True
                rc = None
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
        err = open(d + "/err", "rb").read()[-200000:].decode("utf-8", "replace")
        fails = []
        if os.path.exists(d + "/fails"):
            for line in open(d + "/fails"):
                try: fails.append(json.loads(line))
                except ValueError: pass
        cur, scen = start, "?"
        try:
            t = open(d + "/progress").read().split()
            cur, scen = int(t[0]), t[1]
        except (OSError, IndexError, ValueError):
            pass
        for f in os.listdir(d):
            if f.startswith("tsan."):
                for k, rep in tsan_reports(open(os.path.join(d, f), errors="replace").read()):
                    fails.append({"key": k, "case": cur, "detail": rep})
        out = None
        if rc == 0 and os.path.exists(d + "/out"):
            out = json.load(open(d + "/out"))
        return rc, killed, err, fails, cur, scen, out

    def run(self):
        pos = self.start
        while pos < self.end and STOP["crashes"] < 16 and not (STOP["deadline"] and time.time() > STOP["deadline"]):
            rc, killed, err, fails, cur, scen, out = self.once(pos, self.end - pos)
            self.fails += fails
            if out is not None:
                self.outs.append(out)
                return
            hang = killed or rc == 97
            if hang and STOP["crashes"] >= 16:
                return          # enough is known already
            if hang:
                rc2, k2, err2, f2, c2, s2, o2 = self.once(cur, 1, HANG_RERUN_BUDGET, "hang")
                if k2 or rc2 == 97:
                    self.fails.append({"key": "hang:" + scen, "case": cur, "detail": "case did not finish within %dx its budget when run alone" % HANG_RERUN_BUDGET})
                    if not any(fnmatch.fnmatchcase("hang:" + scen, e["key"]) for e in STOP["known"]):
                        STOP["crashes"] += 16   # further hangs would only cost time
                else:
                    self.inconclusive += 1
                    self.fails += f2
                    if rc2 != 0:
                        self.fails.append({"key": (classify(err2) or "exit:%s:%s" % (rc2, scen)) , "case": cur, "detail": excerpt(err2)})
            elif rc == 98:
                pass            # the lifetime monitor recorded the failure itself
            elif rc == -9:
                self.lost += 1  # ended from outside (memory); not evidence of anything
            elif rc == 3:
                raise CheckError("%s: harness cannot start: %s" % (self.job["name"], err[-500:]))
            else:
                k = classify(err)
                if k is None:
                    k = ("signal:%d:%s" % (-rc, scen)) if rc is not None and rc < 0 else "exit:%s:%s" % (rc, scen)
                self.fails.append({"key": k, "case": cur, "detail": excerpt(err), "scenario": scen})
            self.crashes += 1
            if not any(fnmatch.fnmatchcase(f["key"], e["key"]) for e in STOP["known"] for f in self.fails[-1:]):
                STOP["crashes"] += 1
            if cur > pos:       # re-count the cases that did run
                self.outs.append({"cases": cur - pos, "fails": 0, "trivial": 0, "counters": {}, "distinct": [], "samples": [], "partial": True})
            pos = cur + 1
            if self.crashes >= self.job.get("max_crashes", 12):
                return


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)).get("findings", []) if e["property"] == pid]


def run_check(pid, spec, tier, seed):
    t0 = time.time()
    STOP["known"] = load_known(pid)
    STOP["deadline"] = t0 + 600 if tier == "quick" else None
    b = Builder()
    jobs = [dict(j) for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    try:
        bins = b.build(jobs)
    finally:
        b.release()
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    shards = []
    try:
        for j in jobs:
            n = j["cases"][0 if tier == "quick" else 1]
            k = min(j.get("shards", NCPU), max(1, n))
            step = (n + k - 1) // k
            for i in range(k):
                s = i * step
                c = min(step, n - s)
                if c > 0:
                    shards.append(Shard(j, bins[j["name"]], tier, seed, s, c, scratch, i))
        par = min(spec.get("parallel", NCPU), NCPU)
        with ThreadPoolExecutor(par) as ex:
            list(ex.map(lambda s: s.run(), shards))
        return judge(pid, spec, tier, seed, jobs, shards, t0, t_build)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def judge(pid, spec, tier, seed, jobs, shards, t0, t_build):
    known = load_known(pid)
    counters, distinct, samples, fails = {}, set(), [], []
    cases = trivial = incon = lost = 0
    perjob = {}
    for s in shards:
        incon += s.inconclusive
        lost += s.lost
        for o in s.outs:
            cases += o["cases"]
            trivial += o["trivial"]
            perjob[s.job["name"]] = perjob.get(s.job["name"], 0) + o["cases"]
            for k, v in o["counters"].items():
                k2 = s.job["name"] + "/" + k
                counters[k2] = max(counters.get(k2, 0), v) if k.startswith("max:") else counters.get(k2, 0) + v
            distinct.update(s.job["name"] + h for h in o["distinct"])
            for x in o["samples"]:
                if sum(1 for y in samples if y.startswith(s.job["name"] + ":")) < 2:
                    samples.append(s.job["name"] + ": " + x)
        for f in s.fails:
            fails.append((s, f))
    seen, violations, hits = {}, [], set()
    for s, f in fails:
        key = f["key"]
        seen[key] = seen.get(key, 0) + 1
        e = next((e for e in known if fnmatch.fnmatchcase(key, e["key"]) and re.search(e.get("detail", ""), f.get("detail", ""), re.S)), None)
        if e is not None:
            hits.add(e["key"] + e.get("detail", ""))
            continue
        if seen[key] > 1 and any(v[1]["key"] == key for v in violations):
            continue
        violations.append((s, f))
    for e in known:
        print("KNOWN-FINDING: property=%s %s%s" % (pid, e["what"], "" if e["key"] + e.get("detail", "") in hits else " (listed; not reached by this run)"))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(distinct), "rule": spec["rule"], "samples": samples[:12] or ["(none)"],
            "cases_per_job": perjob, "trivial_cases": trivial, "observed": dict(sorted(counters.items())),
            "jobs": [{"name": j["name"], "instrumentation": j["variant"], "harness": j["src"]} for j in jobs],
            "inconclusive_cases": incon, "lost_processes": lost,
            "known_findings_reproduced": len(hits),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "build_s": round(t_build, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    for n, (s, f) in enumerate(violations[:10]):
        rp = os.path.join(rdir, "%s-%d.json" % (pid, n))
        with open(rp, "w") as o:
            json.dump({"property": pid, "job": s.job["name"], "key": f["key"], "case": f["case"], "seed": seed, "tier": tier, "detail": f.get("detail", ""),
                       "replay": "%s --seed %d --start %d --count 1 --tier %s --tmp /tmp" % (s.binary, seed, f["case"], tier)}, o, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        log("  key=%s case=%s\n    %s" % (f["key"], f["case"], f.get("detail", "")[:1500].replace("\n", "\n    ")))
    log("%s: %d cases, %d distinct, %d violation(s), %d inconclusive, build %.1fs, total %.1fs" % (pid, cases, len(distinct), len(violations), incon, t_build, time.time() - t0))
    if violations:
        return 1
    if lost:
        raise CheckError("%d process(es) were ended from outside" % lost)
    if cases == 0 or not distinct:
        raise CheckError("nothing was observed")
    for r in spec.get("require", []):
        if not counters.get(r):
            raise CheckError("the run observed no '%s'" % r)
    return 0


def main():
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    from checks import CHECKS
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    try:
        rc = run_check(pid, CHECKS[pid], tier, seed)
    except CheckError as e:
        print("ERROR: %s" % e)
        rc = 2
    except Exception:
        import traceback
        print("ERROR: %s" % traceback.format_exc())
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
