#!/usr/bin/env python3
"""Runs the simulator for one property: builds it from the code under test's
working tree, searches seeds on all cores, gates and minimises every violation,
writes the evidence file.

  driver.py PROP [quick|thorough]
  driver.py --survey PROP SECONDS        (development: table of outcomes)
  driver.py --replay FILE
"""
import fcntl, hashlib, json, os, re, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, ".build"))
REPO = os.environ.get("SIM_REPO", "/repo")
BIN = os.path.join(BUILD, "sim.bin")
NW = int(os.environ.get("SIM_WORKERS", "8"))
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                       "detect_stack_use_after_return=0:malloc_context_size=12:hard_rss_limit_mb=3500:"
                       "max_allocation_size_mb=3000:handle_abort=1:symbolize=1")
ENV["LC_ALL"] = "C"
ENV["TZ"] = "UTC"
ENV["LOCPATH"] = os.path.join(BUILD, "locale")


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-j%d" % NW, "-C", os.path.join(HERE, "sim"), "REPO=" + REPO, "B=" + BUILD],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-4000:])
        print("ERROR: the simulator does not build")
        sys.exit(2)


def crash_sig(text):
    m = re.search(r"SUMMARY: AddressSanitizer: (\S+)", text)
    kind = m.group(1) if m else None
    if kind is None:
        if "terminate called" in text:
            kind = "terminate"
        elif "HANG" in text:
            return "hang"
        elif "Assertion" in text:
            kind = "assert"
        else:
            kind = "died"
    fn = "?"
    for m in re.finditer(r"^\s+#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(:\d+)*\s*$", text, re.M):
        if "/src/" in m.group(2) and "/verif/" not in m.group(2) and "libsanitizer" not in m.group(2) and not m.group(2).startswith("/usr"):
            fn = re.sub(r"\(.*", "", m.group(1)).strip()
            break
    return "crash:%s:%s" % (kind, fn.replace(" ", "_"))


def norm(sig):
    return sig.strip()


class Result:
    def __init__(self, sig, hash_, detail):
        self.sig, self.hash, self.detail = sig, hash_, detail


def replay(path, timeout=120):
    with tempfile.TemporaryFile() as er:
        p = subprocess.run([BIN, "replay", path], stdout=subprocess.PIPE, stderr=er, env=ENV, timeout=timeout)
        er.seek(0)
        err = er.read().decode("latin-1")
    out = p.stdout.decode("latin-1")
    for l in out.splitlines():
        if l.startswith("E "):
            return Result(None, l.split()[2], "")
        if l.startswith("V "):
            f = l.split(" ", 3)
            sig, _, det = f[3].partition(" | ")
            return Result(norm(sig), f[2], det.replace("\x1f", "\n"))
        if l.startswith("PARSE"):
            print("ERROR: " + l)
            sys.exit(2)
    if "HANG" in out:
        return Result("hang", "-", "no progress within 20 s of processor time")
    return Result(crash_sig(err), "-", err[-3000:])


def gen(prop, seed, thorough):
    a = [BIN, "gen", prop, str(seed)] + (["thorough"] if thorough else [])
    return subprocess.run(a, stdout=subprocess.PIPE, env=ENV).stdout.decode("latin-1")


class Worker:
    def __init__(self, prop, base, w, seconds, thorough, stop_at):
        self.prop, self.base, self.w, self.thorough = prop, base, w, thorough
        self.next, self.stop_at = w, stop_at
        self.start()

    def start(self):
        left = max(0.2, self.stop_at - time.time())
        self.first = self.next
        self.err = tempfile.TemporaryFile()
        self.outf = tempfile.TemporaryFile()
        a = [BIN, "run", self.prop, str(self.base), str(self.next), str(NW), "1000000000", "%.1f" % left]
        if self.thorough:
            a.append("thorough")
        self.p = subprocess.Popen(a, stdout=self.outf, stderr=self.err, env=ENV)


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def search(prop, base, seconds, thorough, enough=40):
    stop_at = time.time() + seconds
    ws = [Worker(prop, base, w, seconds, thorough, stop_at) for w in range(NW)]
    st = dict(runs=0, nontrivial=0, sim_seconds=0, io_calls=0, faults={}, ops={}, probes={}, samples=[], states=set())
    viol = {}          # sig -> list of (idx, seed, hash, detail)
    hashes = {}
    crashes = 0
    while ws:
        time.sleep(0.05)
        for w in list(ws):
            if w.p.poll() is None:
                continue
            w.outf.seek(0)
            out = w.outf.read().decode("latin-1")
            w.err.seek(0)
            err = w.err.read().decode("latin-1")
            last = None
            done = False
            n = 0
            for l in out.splitlines():
                if l.startswith("B "):
                    f = l.split()
                    last = (int(f[1]), int(f[2]))
                elif l.startswith("E "):
                    f = l.split()
                    n += 1
                    if len(hashes) < 4000:
                        hashes[last] = f[2]
                    last = None
                elif l.startswith("V "):
                    f = l.split(" ", 4)
                    sig, _, det = f[4].partition(" | ")
                    viol.setdefault(norm(sig), []).append((int(f[1]), int(f[2]), f[3], det.replace("\x1f", "\n"), w.first))
                    n += 1
                    last = None
                elif l.startswith("STATS "):
                    d = json.loads(l[6:])
                    for k in ("runs", "nontrivial", "sim_seconds", "io_calls"):
                        st[k] += d[k]
                    for k in ("faults", "ops", "probes"):
                        merge(st[k], d[k])
                    st["samples"] += d["samples"]
                    st["states"].update(x for x in d["states"].split(",") if x)
                    done = True
            if not done:
                if last is None:
                    print("ERROR: a worker ended without a result: " + err[-2000:])
                    sys.exit(2)
                sig = "hang" if "HANG" in out else crash_sig(err)
                viol.setdefault(sig, []).append((last[0], last[1], "-", err[-3000:], w.first))
                st["runs"] += n + 1
                crashes += 1
                w.next = last[0] + NW
            ws.remove(w)
            if not done and time.time() < stop_at and sum(len(v) for v in viol.values()) < enough:
                w.start()
                ws.append(w)
    return st, viol, hashes


# ------------------------------------------------------------------ shrinking
def split(text):
    head, ops = [], []
    for l in text.splitlines():
        if l.startswith("op "):
            ops.append([l])
        elif l.startswith(" fault"):
            ops[-1].append(l)
        elif l.strip():
            head.append(l)
    return head, ops


def join(head, ops):
    return "\n".join(head + [x for o in ops for x in o]) + "\n"


def minimise(text, sig, budget):
    t0 = time.time()
    tmp = tempfile.NamedTemporaryFile("w", suffix=".sim", delete=False)
    tmp.close()
    tries = [0]

    def bad(t):
        if time.time() - t0 > budget:
            return False
        tries[0] += 1
        with open(tmp.name, "w", encoding="latin-1") as f:
            f.write(t)
        try:
            return replay(tmp.name, 60).sig == sig
        except subprocess.TimeoutExpired:
            return False

    head, ops = split(text)
    # drop operations
    n = max(1, len(ops) // 2)
    while n >= 1:
        i = 0
        while i < len(ops):
            cand = ops[:i] + ops[i + n:]
            if cand and bad(join(head, cand)):
                ops = cand
            else:
                i += n
        n //= 2
    # drop faults
    for o in range(len(ops)):
        k = 1
        while k < len(ops[o]):
            c = [list(x) for x in ops]
            del c[o][k]
            if bad(join(head, c)):
                ops = c
            else:
                k += 1
    # drop arguments, then shrink numbers
    for o in range(len(ops)):
        parts = ops[o][0].split(" ")
        k = 2
        while k < len(parts):
            p2 = parts[:k] + parts[k + 1:]
            c = [list(x) for x in ops]
            c[o][0] = " ".join(p2)
            if bad(join(head, c)):
                ops, parts = c, p2
            else:
                k += 1
        for k in range(2, len(parts)):
            key, _, v = parts[k].partition("=")
            if re.fullmatch(r"\d+", v) and "seed" not in key:
                for t in (0, 1, 2, int(v) // 2):
                    if t < int(v):
                        p2 = list(parts)
                        p2[k] = "%s=%d" % (key, t)
                        c = [list(x) for x in ops]
                        c[o][0] = " ".join(p2)
                        if bad(join(head, c)):
                            ops, parts = c, p2
                            break
    out = join(head, ops)
    os.unlink(tmp.name)
    return out, tries[0]


def with_history(prop, base, first, idx, thorough, sig, path):
    """A violation that needs what earlier runs left behind in the process: find
    the shortest tail of that history, then the fewest runs of it, that still
    reproduce it; the replay file holds all of them."""
    def text(ids):
        a = [BIN, "genlist", prop, str(base), ",".join(map(str, ids))] + (["thorough"] if thorough else [])
        return subprocess.run(a, stdout=subprocess.PIPE, env=ENV).stdout.decode("latin-1")

    def bad(ids):
        open(path, "w", encoding="latin-1").write(text(ids))
        try:
            return replay(path, 300).sig == sig
        except subprocess.TimeoutExpired:
            return False
    hist = list(range(first, idx + 1, NW))
    n, t0 = 2, time.time()
    while True:
        ids = hist[-n:]
        if bad(ids):
            break
        if n >= len(hist) or time.time() - t0 > 120:
            return None
        n *= 4
    step = max(1, len(ids) // 2)
    while step >= 1 and time.time() - t0 < 180:
        i = 0
        while i + step < len(ids):
            c = ids[:i] + ids[i + step:]
            if bad(c):
                ids = c
            else:
                i += step
        step //= 2
    return text(ids)


# ------------------------------------------------------------------ findings
def findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) replay=(\S+) sig=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((os.path.join(HERE, m.group(2)), m.group(3), m.group(4)))
    return out


META = {}
mp = os.path.join(HERE, "meta.json")
if os.path.exists(mp):
    META = json.load(open(mp))


def main():
    if sys.argv[1] == "--build":
        build()
        return
    if sys.argv[1] == "--replay":
        build()
        r = replay(sys.argv[2])
        print("held" if r.sig is None else "VIOLATED %s\n%s" % (r.sig, r.detail))
        sys.exit(0 if r.sig is None else 1)
    if sys.argv[1] == "--survey":
        build()
        prop = sys.argv[2]
        st, viol, _ = search(prop, int(os.environ.get("VERIF_SEED", "1")), float(sys.argv[3]), False, enough=400)
        print("runs %d  distinct %d  probes %s" % (st["runs"], len(st["states"]), st["probes"]))
        print("faults", st["faults"], "ops", st["ops"])
        for s, v in sorted(viol.items(), key=lambda x: -len(x[1])):
            print("%5d  %s   seed %d\n        %s" % (len(v), s, v[0][1], v[0][3][:700].replace("\n", "\n        ") if not s.startswith("crash") else ""))
        return
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    base = int(os.environ.get("VERIF_SEED", "1"))
    meta = META.get(prop, {})
    print("property %s tier %s VERIF_SEED %d" % (prop, tier, base))
    t0 = time.time()
    build()
    t_build = time.time() - t0
    rdir = os.environ.get("SIM_REPLAYS", os.path.join(HERE, "replays"))
    os.makedirs(rdir, exist_ok=True)

    known = []
    nk = 0
    for path, sig, text in findings(prop):
        r = replay(path)
        if r.sig == sig:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
            known.append(dict(replay=os.path.relpath(path, HERE), signature=sig, what=text, still_fails=True))
        elif r.sig is None:
            known.append(dict(replay=os.path.relpath(path, HERE), signature=sig, what=text, still_fails=False))
        else:
            print("detail: listed finding fails differently: %s" % r.sig)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            nk += 1

    # fixed regression histories, replayed first
    reg = []
    cdir = os.path.join(HERE, "corpus", prop)
    regress_viol = []
    if os.path.isdir(cdir):
        for f in sorted(os.listdir(cdir)):
            r = replay(os.path.join(cdir, f))
            reg.append(f)
            if r.sig is not None:
                regress_viol.append((r.sig, os.path.join(cdir, f), r.detail))

    secs = float(os.environ.get("SIM_SECONDS", meta.get("thorough_s", 600) if thorough else meta.get("quick_s", 25)))
    t1 = time.time()
    st, viol, hashes = search(prop, base, secs, thorough)
    t_search = time.time() - t1

    # determinism: a sample of held seeds again, in fresh processes and alone
    redo = drift = 0
    for (idx, seed), h in sorted(hashes.items())[: 12 if not thorough else 60]:
        p = os.path.join(rdir, ".redo-%s-%d" % (prop, os.getpid()))
        open(p, "w", encoding="latin-1").write(gen(prop, seed, thorough))
        r = replay(p)
        os.unlink(p)
        redo += 1
        if r.hash != h:
            if r.sig is not None:
                viol.setdefault(r.sig, []).append((idx, seed, r.hash, r.detail, idx))
                continue
            # the run held both times but took a different course: what ran before it in the process mattered
            print("note: seed %d took a different course when run alone (%s then %s)" % (seed, h, r.hash))
            drift += 1

    reported = nk
    allv = []
    for sig, path, det in regress_viol:
        print("detail: %s\n%s" % (sig, det[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        reported += 1
        allv.append(dict(signature=sig, replay=path, runs=1))
    shown = 0
    for sig, lst in sorted(viol.items(), key=lambda x: x[1][0][0]):
        if shown >= 4:
            allv.append(dict(signature=sig, seeds=[x[1] for x in lst[:5]], runs=len(lst), note="not minimised"))
            continue
        idx, seed, h, det, first = sorted(lst)[0]
        text = gen(prop, seed, thorough)
        path = os.path.join(rdir, "%s-%s.sim" % (prop, hashlib.sha1(sig.encode()).hexdigest()[:10]))
        open(path, "w", encoding="latin-1").write(text)
        a, b = replay(path), replay(path)
        if a.sig is not None and a.sig == b.sig and a.sig != sig:
            sig = a.sig            # fails either way; what it trips over first depends on the process
        if a.sig != sig or b.sig != sig:
            # state carried over between runs of one process: replay the runs that came before, too
            text = with_history(prop, base, first, idx, thorough, sig, path)
            if text is None:
                print("ERROR: violation %s of seed %d does not replay (%s, %s)" % (sig, seed, a.sig, b.sig))
                allv.append(dict(signature=sig, seeds=[seed], runs=len(lst), note="did not replay"))
                continue
            open(path, "w", encoding="latin-1").write(text)
            a = replay(path)
            small, tries = text, 0
        else:
            small, tries = minimise(text, sig, 60)
        r = None
        open(path, "w", encoding="latin-1").write("# %s\n" % sig + small)
        r = replay(path)
        if r.sig != sig:
            open(path, "w", encoding="latin-1").write(text)
            r = a
        print("detail: %s (seed %d, %d of the runs)\n%s" % (sig, seed, len(lst), r.detail[:2500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        reported += 1
        shown += 1
        allv.append(dict(signature=sig, seed=seed, replay=os.path.relpath(path, HERE), runs=len(lst), shrink_steps=tries, detail=r.detail[:1000]))
    rule = ""
    for l in subprocess.run([BIN, "props"], stdout=subprocess.PIPE, env=ENV).stdout.decode().splitlines():
        a, _, b = l.partition("\t")
        if a == prop:
            rule = b
    wall = time.time() - t0
    runs = st["runs"]
    ev = dict(property=prop, tier=tier, seed=base, level=meta.get("level", "exploration"),
              coverage=dict(evaluations=runs, distinct_nontrivial=min(st["nontrivial"], len(st["states"])),
                            rule=rule,
                            samples=st["samples"][:3] or [gen(prop, 1, thorough)[:1500]],
                            simulated_runs=runs, runs_per_hour=int(runs * 3600 / max(t_search, 0.1)), seeds_per_hour=int(runs * 3600 / max(t_search, 0.1)),
                            simulated_seconds=st["sim_seconds"], nontrivial_runs=st["nontrivial"], distinct_outcome_traces=len(st["states"]),
                            distinct_measure="distinct 64-bit hashes of the whole event trace of a run (operations, results, faults fired, bytes on the simulated disk)",
                            faults_injected=st["faults"], client_operations=st["ops"], reach_probes=st["probes"], io_calls_through_seam=st["io_calls"],
                            determinism_rechecks=redo, determinism_drift=drift, regression_histories=reg,
                            real_components=meta.get("real", ["every source file of src/iges, src/entities, src/dllapi, src/geom and src/idf, compiled from the working tree", "libstdc++ file streams", "glibc stdio formatting"]),
                            stub_components=meta.get("stub", ["disk (in-memory, fault injecting)", "wall clock", "allocator front end (operator new)"]),
                            known_findings=known),
              assumptions=meta.get("assumptions", []), wall_s=round(wall, 1), build_s=round(t_build, 1), violations=allv)
    evd = os.environ.get("SIM_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d runs, %d distinct, faults %s, %.0f s" % (prop, runs, len(st["states"]), st["faults"], wall))
    if reported:
        sys.exit(1)
    if viol:
        sys.exit(2)            # something failed that could not be reproduced at all
    sys.exit(0)


main()
