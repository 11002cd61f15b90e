#!/usr/bin/env python3
"""Driver of the monitors: builds /repo's current sources under a sanitizer,
runs the harness of one property in parallel shards, turns what the monitors
saw into a verdict, and writes evidence/<id>.json.

  run.py C01                     one check (VERIF_SEED / VERIF_TIER from the environment)
  run.py C01 --case 17 [--trace] replay one case, output to the terminal
  run.py --replay FILE           replay a case written by an earlier violation
  run.py --setup                 build everything once
exit 0 held / 1 violated (VIOLATION line) / 2 the check itself failed
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = min(8, os.cpu_count() or 8)

INCLUDES = ["dependencies/jsoncpp/include", "dependencies/jsoncpp/src", "src",
            "src/core/common", "src/core/distributions", "src/core/model",
            "src/core/trainingset", "src/models/gmm", "src/models/hmm",
            "src/models/kmeans"]
COMMON = ["-g1", "-fno-omit-frame-pointer", "-DUSE_PTHREAD", "-DSWIGPYTHON", "-pthread", "-w"]
CONFIGS = {
    "asan": dict(cxx="clang++", flags=COMMON + ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                 "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
                 env={"ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=206:abort_on_error=0:exitcode=77:allocator_may_return_null=0:"
                                      "detect_stack_use_after_return=1:hard_rss_limit_mb=6000:max_allocation_size_mb=4000:handle_abort=1",
                      "UBSAN_OPTIONS": "print_stacktrace=1"}),
    "tsan": dict(cxx="clang++", flags=COMMON + ["-O1", "-fsanitize=thread"],
                 env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"}),
    "plain": dict(cxx="g++", flags=COMMON + ["-O1", "-g"], env={}),
    # uninitialised values; its 64-bit long double makes the oracles useless, so
    # only what memcheck reports counts
    "memcheck": dict(cxx="g++", flags=COMMON + ["-O1", "-g"], env={}, only_crashes=True,
                     wrap=["valgrind", "-q", "--tool=memcheck", "--error-exitcode=88", "--exit-on-first-error=yes",
                           "--leak-check=no", "--num-callers=20", "--show-mismatched-frees=no"]),
    "release": dict(cxx="g++", flags=COMMON + ["-O3", "-DNDEBUG"], env={}),
}
sys.path.insert(0, VERIF)
from props import PROPS   # id -> dict(harness, configs, rule, assumptions, ...)


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------- building
def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            files = [base]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(base) for f in fs)
        for f in files:
            if not f.endswith((".cpp", ".hpp", ".h", ".inl", ".c")):
                continue
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def compile_one(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, cmd, r.stdout


def run_all(cmds):
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rc, cmd, out in ex.map(compile_one, cmds):
            if rc != 0:
                raise HarnessError("build failed: %s\n%s" % (cmd[-3], out[:2500]))


def clean_old(keep):
    """Drop builds of other trees so that repeated runs do not fill the disk."""
    if not os.path.isdir(BUILD):
        return
    olds = [d for d in os.listdir(BUILD) if d not in keep]
    olds.sort(key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in olds[:-12]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)


def build(harness, config, ldflags=()):
    cfg = CONFIGS[config]
    cxx = cfg["cxx"]
    inc = ["-I" + os.path.join(REPO, i) for i in INCLUDES] + ["-I" + os.path.join(VERIF, "lib")]
    libhash = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "dependencies/jsoncpp")])
    libhash = hashlib.sha256((libhash + config + " ".join([cxx] + cfg["flags"])).encode()).hexdigest()[:16]
    libdir = os.path.join(BUILD, "lib-%s-%s" % (config, libhash))
    lib = os.path.join(libdir, "libxmm.a")
    hsrc = [os.path.join(VERIF, "harness", harness + ".cpp"), os.path.join(VERIF, "lib/vf_main.cpp")]
    hhash = tree_hash([os.path.join(VERIF, "lib"), hsrc[0]])
    exe = os.path.join(libdir, "%s-%s" % (harness, hhash))
    clean_old({os.path.basename(libdir)})
    todo = []
    os.makedirs(libdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=libdir)
    try:
        objs = []
        need_lib = not os.path.exists(lib)
        need_exe = not os.path.exists(exe)
        if need_lib:
            srcs = []
            for base in ("src", "dependencies/jsoncpp/src"):
                for d, _, fs in os.walk(os.path.join(REPO, base)):
                    srcs += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cpp")]
            # big files first, for the scheduling
            srcs.sort(key=lambda s: -os.path.getsize(s))
            for i, s in enumerate(srcs):
                o = os.path.join(tmp, "%02d_%s.o" % (i, os.path.basename(s)))
                objs.append(o)
                todo.append([cxx, "-std=c++11"] + cfg["flags"] + inc + ["-c", s, "-o", o])
        hobjs = []
        if need_exe:
            for s in hsrc:
                o = os.path.join(tmp, "h_%s.o" % os.path.basename(s))
                hobjs.append(o)
                todo.insert(0, [cxx, "-std=c++17"] + cfg["flags"] + inc + ["-c", s, "-o", o])
        run_all(todo)
        if need_lib:
            t = os.path.join(tmp, "libxmm.a")
            run_all([["ar", "crs", t] + objs])
            os.replace(t, lib)
        if need_exe:
            t = os.path.join(tmp, "exe")
            run_all([[cxx] + cfg["flags"] + ["-o", t] + hobjs + [lib] + list(ldflags)])
            os.replace(t, exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


# ------------------------------------------------------------------- running
def classify(text, rc):
    """Key of a crash: kind of report and the innermost library frame."""
    kind = "crash"
    for pat, name in ((r"SUMMARY: AddressSanitizer: ([\w-]+)", None), (r"runtime error: ", "undefined-behaviour"),
                      (r"WARNING: ThreadSanitizer: ([^\n(]+)", None), (r"Assertion '.*' failed", "library-assertion"),
                      (r"==\d+== (Conditional jump or move depends on uninitialised|Use of uninitialised value|"
                       r"Invalid read|Invalid write|Invalid free|Syscall param \S+ contains uninitialised)", None),
                      (r"pure virtual method called", "pure-virtual-call"),
                      (r"terminate called", "terminate")):
        m = re.search(pat, text)
        if m:
            kind = name or m.group(1).strip().replace(" ", "-")
            break
    else:
        if rc < 0:
            kind = "signal-%d" % -rc
    frame = ""
    for m in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in ([^\n]+?) (\S+?):(\d+)", text, re.M):
        if "/src/" in m.group(2) and REPO in m.group(2):
            frame = re.sub(r"\(.*", "", m.group(1))
            break
    if not frame:
        for m in re.finditer(r"^==\d+==\s+(?:at|by) 0x[0-9A-F]+: (xmm::[^\n(]+)", text, re.M):
            frame = m.group(1)
            break
    if not frame:
        for m in re.finditer(r"^\s*#\d+ (xmm::[\w:~<>, ]+)", text, re.M):
            frame = m.group(1)
            break
    return kind + ("@" + frame if frame else "")


def run_shard(exe, prop, seed, tier, shard, shards, cfg, workdir, case_timeout, scale, deadline, final, notes):
    """Runs one shard to its end, restarting after a crash.  Returns (parts, events, error)."""
    events, parts, start = [], [], 0
    env = dict(os.environ)
    env.update(cfg["env"])
    attempt = 0
    while True:
        attempt += 1
        tag = "%d-%d" % (shard, attempt)
        prog, out, err = (os.path.join(workdir, n + tag) for n in ("prog", "out", "err"))
        cmd = cfg.get("wrap", []) + [exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--shard", str(shard), "--shards",
               str(shards), "--from", str(start), "--progress", prog, "--out", out, "--scale", str(scale)]
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=env, cwd=workdir, start_new_session=True)
        last, t0, hung = None, time.time(), False
        while True:
            try:
                p.wait(timeout=0.5 if time.time() - t0 < 5 else 1)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                cur = open(prog).read().strip()
            except OSError:
                cur = None
            if cur != last:
                last, t0 = cur, time.time()
            elif time.time() - t0 > case_timeout and (not final or time.time() - t0 > 4 * case_timeout or asleep(p)):
                hung = True
                stacks = backtrace(p)
                kill(p)
                break
            if time.time() > deadline:
                kill(p)
                return parts, events, "deadline"
        text = open(err, errors="replace").read()
        try:
            cur = open(prog).read().strip()
        except OSError:
            cur = ""
        if not hung and p.returncode in (0, 1) and os.path.exists(out):
            parts.append(json.load(open(out)))
            return parts, events, None
        if p.returncode == 3 and not hung:
            return parts, events, "harness refused: " + text[-500:]
        if not cur.isdigit():
            return parts, events, "died outside a case (rc %s): %s" % (p.returncode, text[-1500:])
        k = int(cur)
        if hung and not final:
            # a slow machine, or a case that never ends?
            rc, text = single(exe, prop, seed, tier, k, cfg, min(2 * case_timeout, max(10, deadline - time.time())))
            if rc == 0:
                notes.append("case %d made no progress once and finished when re-run" % k)
                start = k + 1
                continue
            if rc is not None and rc != 1:
                events.append(dict(key=classify(text, rc), case=k, message=text[-4000:], trace=""))
                return parts, events, None
        if hung:
            events.append(dict(key="hang", case=k, message="no progress for %d s\n%s" % (case_timeout, stacks), trace="", hang=True))
        else:
            events.append(dict(key=classify(text, p.returncode), case=k, message=report(text), trace=""))
        start = k + 1
        if hung or len(events) >= 4:
            return parts, events, None


def report(text):
    """The part of the output that says what the sanitizer saw."""
    m = re.search(r"WARNING: ThreadSanitizer|ERROR: AddressSanitizer|runtime error: |Assertion '|^==\d+== ", text, re.M)
    text = text[max(0, m.start() - 300):] if m else text[-6000:]
    return text[:9000]


def asleep(p):
    """Whether no thread of a process of ours runs or wants to: a deadlock, not a slow machine."""
    def sample():
        cpu = 0
        for t in os.listdir("/proc/%d/task" % p.pid):
            f = open("/proc/%d/task/%s/stat" % (p.pid, t)).read().rsplit(")", 1)[1].split()
            if f[0] not in "SDZX":
                return None
            cpu += int(f[11]) + int(f[12])
        return cpu
    try:
        first = sample()
        for _ in range(20):
            time.sleep(0.25)
            if first is None or sample() != first:
                return False
        return True
    except (OSError, IndexError, ValueError):
        return False


def backtrace(p):
    """Where the threads of a process of ours that makes no progress are."""
    try:
        r = subprocess.run(["gdb", "-p", str(p.pid), "-batch", "-nx", "-ex", "thread apply all bt 8"], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=40)
        return "\n".join(l for l in r.stdout.splitlines() if l.startswith(("#", "Thread")))[-5000:]
    except (OSError, subprocess.SubprocessError):
        return ""


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    p.wait()


def single(exe, prop, seed, tier, k, cfg, timeout, trace=False, repeat=1):
    env = dict(os.environ)
    env.update(cfg["env"])
    if trace:
        env["VF_TRACE"] = "1"
    cmd = cfg.get("wrap", []) + [exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--case", str(k), "--repeat", str(repeat)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env,
                           timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == prop:
                    out.append(d)
    return out


def check(prop, seed, tier):
    spec = PROPS[prop]
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 3 * 3600)
    scale = float(os.environ.get("VF_SCALE", "1"))
    merged = dict(evaluations=0, discarded=0, tallies={}, distinct=set(), samples=[])
    events, notes = [], []
    for config in spec["configs"]:
        cfg = CONFIGS[config]
        exe = build(spec["harness"], config, spec.get("ldflags", ()))
        work = tempfile.mkdtemp(prefix="vf-")
        try:
            shards = spec.get("shards", JOBS)
            cfg_scale = scale * spec.get("config_scale", {}).get(config, 1)
            with cf.ThreadPoolExecutor(shards) as ex:
                fs = [ex.submit(run_shard, exe, prop, seed, tier, i, shards, cfg, work,
                                spec.get("case_timeout", 60), cfg_scale, deadline, spec.get("hang_is_final"), notes) for i in range(shards)]
                errors = []
                for f in fs:
                    parts, evs, err = f.result()
                    if err:
                        errors.append("%s/%s: %s" % (prop, config, err))
                    for e in evs:
                        e["config"] = config
                        events.append(e)
                    for d in parts:
                        if cfg.get("only_crashes"):
                            merged["tallies"]["executions under " + config] = merged["tallies"].get("executions under " + config, 0) + d["evaluations"]
                            continue
                        merged["evaluations"] += d["evaluations"]
                        merged["discarded"] += d["discarded"]
                        merged["distinct"].update(d["distinct"])
                        for k, v in d["tallies"].items():
                            merged["tallies"][k] = merged["tallies"].get(k, 0) + v
                        merged["samples"] += d["samples"]
                        for e in d["failures"]:
                            e["config"] = config
                            events.append(e)
            if errors and not events:
                raise HarnessError(errors[0])
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if events:
            break  # the other configurations would only say it again
    for extra in spec.get("extra", []):
        extra(sys.modules[__name__], prop, seed, tier, merged, events, notes)

    # verdict
    known = known_findings(prop)
    violations, seen_known = [], {}
    for e in events:
        m = [k for k in known if re.search(k["match"], e["key"] + " " + e["message"])]
        if m:
            seen_known[m[0]["id"]] = m[0]
        else:
            violations.append(e)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(evaluations=merged["evaluations"], distinct_nontrivial=len(merged["distinct"]),
                      rule=spec["rule"], samples=merged["samples"][:6], monitored_events=merged["tallies"],
                      discarded=merged["discarded"], builds=spec["configs"]),
        assumptions=spec.get("assumptions", []) + notes,
        violations=len(violations), wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if violations:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        shown = {}
        for e in violations:
            if e["key"] in shown:
                continue
            shown[e["key"]] = 1
            if len(shown) > 6:
                break
            path = os.path.join(VERIF, "replay", "%s-%s-%d.json" % (prop, e["config"], e["case"]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, case=e["case"], config=e["config"], key=e["key"],
                               message=e["message"], trace=e.get("trace", "")), f, indent=1)
            print("--- %s [%s] case %d: %s" % (prop, e["key"], e["case"], e["message"][:2500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if merged["evaluations"] == 0 or len(merged["distinct"]) < spec.get("min_distinct", 2):
        raise HarnessError("%s: the monitors observed too little (%d evaluations, %d distinct)" %
                           (prop, merged["evaluations"], len(merged["distinct"])))
    print("%s held: %d executions (%d distinct), %d oracle comparisons, %.1f s" %
          (prop, merged["evaluations"], len(merged["distinct"]), merged["tallies"].get("oracle comparisons", 0),
           time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--setup" in a:
        for p in sorted(PROPS):
            for c in PROPS[p]["configs"]:
                build(PROPS[p]["harness"], c, PROPS[p].get("ldflags", ()))
        return 0
    if "--thorough" in a:
        tier = "thorough"
        a.remove("--thorough")
    if "--replay" in a:
        d = json.load(open(a[a.index("--replay") + 1]))
        exe = build(PROPS[d["property"]]["harness"], d["config"], PROPS[d["property"]].get("ldflags", ()))
        rc, text = single(exe, d["property"], d["seed"], d["tier"], d["case"], CONFIGS[d["config"]], 600, True,
                          PROPS[d["property"]].get("repeat", 1))
        print(text)
        return 0 if rc == 0 else 1
    prop = a[0]
    if "--case" in a:
        cfgs = [a[a.index("--config") + 1]] if "--config" in a else PROPS[prop]["configs"][:1]
        for c in cfgs:
            exe = build(PROPS[prop]["harness"], c, PROPS[prop].get("ldflags", ()))
            rc, text = single(exe, prop, seed, tier, int(a[a.index("--case") + 1]), CONFIGS[c], 600, "--trace" in a)
            print(text)
            print("exit", rc)
        return 0
    return check(prop, seed, tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        print("check error: %s" % e)
        sys.exit(2)
