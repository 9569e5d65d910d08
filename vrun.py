#!/usr/bin/env python3
"""Build and run one check:  vrun.py check <ID>   |   vrun.py setup   |   vrun.py replay <file>

Tier and seed come from VERIF_TIER / VERIF_SEED. Everything is rebuilt (incrementally) from /repo's working tree
into /verif/build.  Exit 0: held; exit 1: VIOLATION line printed; anything else: the check itself failed."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
sys.path.insert(0, V)
from checks.specs import SPECS, MODES, DEFAULT_ASSUME  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
KNOWN = os.path.join(V, "known_findings.txt")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def subset_sources():
    """the repository's own rule for what builds without the tsurugidb libraries"""
    out = os.path.join(B, "subset")
    os.makedirs(out, exist_ok=True)
    p = "/opt/vp/subset/select_sources.py"
    if os.path.exists(p):
        r = subprocess.run([sys.executable, p, REPO, out], capture_output=True, text=True)
        if r.returncode == 0 and os.path.exists(out + "/sources.txt"):
            return open(out + "/sources.txt").read().split()
    return []


def protos():
    return sorted(glob.glob(REPO + "/src/**/*.proto", recursive=True))


def esc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def gen_ninja(ids, full=False):
    lines = ["ninja_required_version = 1.5", "builddir = " + B,
             "rule cc", "  command = $cxx $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
             "rule link", "  command = $cxx $flags -Wl,--no-demangle -o $out $in $libs",
             "rule protoc", "  command = mkdir -p $outdir && protoc -I%s/src --cpp_out=$outdir $in" % REPO]
    have = set()
    pb = os.path.join(B, "protos")
    pl = protos()
    pheaders = []
    for p in pl:
        rel = os.path.relpath(p, REPO + "/src")[:-6]
        lines += ["build %s %s: protoc %s | %s" % (esc(pb + "/" + rel + ".pb.cc"), esc(pb + "/" + rel + ".pb.h"), esc(p),
                                                  " ".join(esc(q) for q in pl)), "  outdir = " + pb]
        pheaders.append(pb + "/" + rel + ".pb.h")

    def obj(src, mode, extra=""):
        m = MODES[mode]
        flags = m["flags"] + " " + extra
        key = hashlib.sha1((flags + m["cxx"]).encode()).hexdigest()[:8]
        rel = src.lstrip("/")
        o = os.path.join(B, "obj", mode + "-" + key, rel + ".o")
        if o not in have:
            have.add(o)
            inc = " ".join("-I" + i for i in m["inc"](V, REPO, pb))
            oo = " || " + " ".join(esc(h) for h in pheaders) if pheaders else ""
            lines.append("build %s: cc %s%s" % (esc(o), esc(src), oo))
            lines.append("  cxx = " + m["cxx"])
            lines.append("  flags = " + flags + " " + inc)
        return o

    bins = {}
    sub = None
    for i in ids:
        s = SPECS[i]
        mode = s["mode"]
        m = MODES[mode]
        extra = s.get("flags", "")
        objs = []
        for c in s["src"]:
            objs.append(obj(os.path.join(V, "checks", c), s.get("hmode", mode), s.get("hflags", extra)))
        for c in m.get("support", []):
            objs.append(obj(os.path.join(V, c), m.get("support_mode", mode)))
        for c in s.get("support", []):
            objs.append(obj(os.path.join(V, c), s.get("support_mode", mode), extra))
        rs = list(s.get("repo", []))
        if s.get("auto"):
            rs += closure().get(i, []) + EXTRA.get(i, [])
            rs = [c for c in dict.fromkeys(rs) if os.path.exists(os.path.join(REPO, c))]
        if full and mode in ("A",):
            if sub is None:
                sub = subset_sources()
            rs = sorted(set(rs) | set(sub))
        for c in rs:
            for g in sorted(glob.glob(os.path.join(REPO, c))) or [os.path.join(REPO, c)]:
                objs.append(obj(g, mode, extra))
        if s.get("protos") is True:
            for p in sorted(set(PBX.get(i, [])) | set(closure().get(i + ".pb", []))):
                objs.append(obj(pb + "/" + p + ".pb.cc", s.get("pmode", mode)))
        elif s.get("protos") or (full and mode == "A"):
            for p in pl:
                rel = os.path.relpath(p, REPO + "/src")[:-6]
                objs.append(obj(pb + "/" + rel + ".pb.cc", s.get("pmode", mode)))
        exe = os.path.join(B, "bin", i)
        lines.append("build %s: link %s" % (esc(exe), " ".join(esc(o) for o in objs)))
        lines.append("  cxx = " + m["cxx"])
        lines.append("  flags = " + m["ldflags"] + " " + s.get("ldflags", ""))
        lines.append("  libs = " + m.get("libs", "") + " " + s.get("libs", "") + (" -lprotobuf -lgrpc++ -lglog -lgflags" if full else ""))
        bins[i] = exe
    os.makedirs(B, exist_ok=True)
    nf = os.path.join(B, "build-%s%s.ninja" % ("-".join(ids) if len(ids) < 4 else "all", "-full" if full else ""))
    text = "\n".join(lines) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    return nf, bins


EXTRA = {}
PBX = {}
_cl = None


def closure():
    """which sources of /repo each check of mode F/SF needs (found once by `vrun.py closure`, completed as needed)"""
    global _cl
    if _cl is None:
        p = os.path.join(V, "checks", "closure.json")
        _cl = json.load(open(p)) if os.path.exists(p) else {}
    return _cl


_texts = None


def texts():
    global _texts
    if _texts is None:
        _texts = {}
        for r, _, fs in os.walk(REPO + "/src/jogasaki"):
            for f in fs:
                if f.endswith(".cpp"):
                    p = os.path.join(r, f)
                    _texts[os.path.relpath(p, REPO)] = open(p, errors="replace").read()
    return _texts


def split_qualified(s):
    """a::b<c::d>::f(args) -> [a, b, f]"""
    s = re.sub(r"^(vtable for|typeinfo for|typeinfo name for|non-virtual thunk to|virtual thunk to|guard variable for|TLS init function for|TLS wrapper function for|construction vtable for) ", "", s)
    s = s.replace("(anonymous namespace)::", "").replace("[abi:cxx11]", "")
    out, depth, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<" and not cur.endswith("operator"):
            depth += 1
        elif c == ">" and depth:
            depth -= 1
        elif depth == 0 and c == "(" and not cur.endswith("operator"):
            break
        elif depth == 0 and s.startswith("::", i):
            out.append(cur)
            cur = ""
            i += 2
            continue
        elif depth == 0 and c == " " and not cur.endswith("operator"):
            out, cur = [], ""
        elif depth == 0:
            cur += c
        i += 1
    return out + [cur]


def find_definitions(undefined, have):
    """sources of /repo that define the undefined symbols"""
    add = set()
    for u in undefined:
        q = split_qualified(u)
        special = re.match(r"(vtable|typeinfo|non-virtual|virtual thunk|construction)", u)
        if special or len(q) < 2:
            if special:
                cls = q[-1] if u.startswith(("vtable", "typeinfo", "construction")) else q[-2]
                rx = re.compile(r"\b%s::" % re.escape(cls))
                ns = q[-2] if len(q) > 1 else ""
                for f, t in texts().items():
                    if f not in have and rx.search(t):
                        add.add(f)
            continue
        fn, own = q[-1], q[-2]
        a = re.compile(r"\b%s\s*::\s*%s\s*\(" % (re.escape(own), re.escape(fn)))
        cand = [f for f, t in texts().items() if f not in have and a.search(t)]
        b = re.compile(r"^[\w:<>&\*\s,\[\]]*?\b%s\s*[\(\{=;]" % re.escape(fn), re.M)
        ns = re.compile(r"namespace [\w:]*\b%s\b" % re.escape(own))
        cand2 = [f for f, t in texts().items() if f not in have and ns.search(t) and b.search(t)]
        # definitions only: a line that starts a function, not a call
        add |= set(cand2) | set(f for f in cand if re.search(r"^(?:\S.*)?\b%s\s*::\s*%s\s*\(" % (re.escape(own), re.escape(fn)), texts()[f], re.M))
    return add


def complete(i, output):
    """the link of check i failed: add the sources that define what was missing; False if there are none"""
    und = set(re.findall(r"undefined reference to `([^\n]*)'\n", output))
    mangled = sorted(und)
    und = set(subprocess.run(["c++filt"], input="\n".join(mangled), capture_output=True, text=True).stdout.split("\n")) - {""}
    have = set(SPECS[i].get("repo", [])) | set(closure().get(i, [])) | set(EXTRA.get(i, []))
    ix = os.environ.get("VERIF_INDEX")           # while the lists are made: which source defines which symbol
    if ix:
        ix = json.load(open(ix))
        add = set(ix[m] for m in mangled if m in ix) - have
        for m in mangled:                        # a virtual table is where a member of the class is
            if m.startswith("_ZTVN") and m not in ix:
                for pre in ("_ZN", "_ZNK"):
                    add |= set(ix[k] for k in ix if k.startswith(pre + m[5:-1])) - have
    else:
        add = find_definitions(und, have)
        if not add and not EXTRA.get(i + ".all"):
            EXTRA[i + ".all"] = ["all"]
            add = set(texts()) - have - set(x for x in texts() if "mizugaki" in texts()[x] or "arrow/" in texts()[x])
    pbs = set()
    for p in protos():
        rel = os.path.relpath(p, REPO + "/src")[:-6]
        ns = re.search(r"^package ([\w.]+);", open(p).read(), re.M)
        stem = rel.replace("/", "_2f").replace(".", "_2e")
        names = re.findall(r"^(?:message|enum) (\w+)", open(p).read(), re.M)
        for u in und:
            if stem in u or (ns and any(u.find(ns.group(1).replace(".", "::") + "::" + n) >= 0 for n in names)):
                pbs.add(rel)
    pbs -= set(PBX.get(i, [])) | set(closure().get(i + ".pb", []))
    EXTRA.setdefault(i, []).extend(sorted(add))
    PBX.setdefault(i, []).extend(sorted(pbs))
    return bool(add or pbs), und if not ix else [m for m in mangled if m not in ix]


def link_ok(i):
    nf, bins = gen_ninja([i])
    r = subprocess.run(["ninja", "-f", nf, "-j", "8"], capture_output=True, text=True)
    return r.returncode == 0


def build_auto(i):
    """mode F/SF: build, completing the list of sources when a definition is missing (code may have moved)"""
    out = ""
    for _ in range(12):
        nf, bins = gen_ninja([i])
        r = subprocess.run(["ninja", "-f", nf, "-j", str(min(8, os.cpu_count() or 4))], capture_output=True, text=True)
        if r.returncode == 0:
            return bins, ""
        out = r.stdout + r.stderr
        if "undefined reference" not in out:
            break
        ok, und = complete(i, out)
        if os.environ.get("VERIF_CLOSURE"):
            log("adding", EXTRA.get(i), "for", sorted(und)[:12])
        if not ok:
            break
    return None, out


def build(ids, keep_going=False):
    auto = [i for i in ids if SPECS[i].get("auto")]
    rest = [i for i in ids if i not in auto]
    res = {}
    os.makedirs(B, exist_ok=True)
    if len(ids) == 1 and auto:
        with open(os.path.join(B, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            bins, out = build_auto(auto[0])
            if bins is None:
                log(out[-6000:])
            return bins
    return build_plain(ids, keep_going)


def build_plain(ids, keep_going=False):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for full in (False, True):
            nf, bins = gen_ninja(ids, full)
            r = subprocess.run(["ninja", "-f", nf, "-j", str(min(8, os.cpu_count() or 4))] + (["-k", "0"] if keep_going else []),
                               capture_output=True, text=True)
            if r.returncode == 0:
                return bins
            if not full and "undefined reference" in (r.stdout + r.stderr) and len(ids) == 1 and SPECS[ids[0]]["mode"] == "A":
                continue
            break
        log((r.stdout + r.stderr)[-6000:])
        return None


def run_once(i, exe, tag, extra_env=None):
    s = SPECS[i]
    n = s.get("shards", 1)
    if TIER == "thorough":
        n = s.get("shards_thorough", n)
    d = os.path.join(B, "run", i + "." + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=4096:hard_rss_limit_mb=%d" % max(3000, 24000 // n)
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=1"
    env["GLOG_logtostderr"] = "1"
    env["GLOG_minloglevel"] = "3"
    env["GLOG_log_dir"] = d
    env["LC_ALL"] = "C.UTF-8"
    env["VF_SCRATCH"] = d
    env.update(s.get("env", {}))
    procs = []
    limit = s.get("timeout", {}).get(TIER, 600 if TIER == "quick" else 6 * 3600)
    for k in range(n):
        f = os.path.join(d, "s%d" % k)
        a = [exe, "--id", i, "--tier", TIER, "--seed", str(SEED), "--out", f + ".json", "--replay", f + ".replay",
             "--known", KNOWN, "--cur", f + ".cur", "--shard", str(k), "--nshards", str(n)]
        procs.append((k, f, subprocess.Popen(a, stdout=open(f + ".stdout", "wb"), stderr=open(f + ".stderr", "wb"), env=env, cwd=d)))
    t0 = time.time()
    bad = None
    todo = list(procs)
    while todo and bad is None:
        for t in list(todo):
            rc = t[2].poll()
            if rc is not None:
                todo.remove(t)
                if rc != 0 and bad is None:
                    bad = (t, rc)
        if time.time() - t0 > limit and todo:
            bad = (todo[0], "timeout")
        time.sleep(0.02)
    for t in todo:
        t[2].kill()
        t[2].wait()
    res = {"known": [], "bad": None}
    for k, f, p in procs:
        for l in open(f + ".stdout", errors="replace"):
            if l.startswith("KNOWN-FINDING:") and l not in res["known"]:
                res["known"].append(l)
    if bad:
        (k, f, p), rc = bad
        cur = open(f + ".cur", "rb").read().split(b"\0")[0].decode(errors="replace") if os.path.exists(f + ".cur") else ""
        err = open(f + ".stderr", errors="replace").read()
        if len(err) > 24000:
            err = err[:12000] + "\n[...]\n" + err[-12000:]
        rep = open(f + ".replay", errors="replace").read() if rc == 96 and os.path.exists(f + ".replay") else ""
        kind = {96: "oracle", 99: "sanitizer", 97: "hang", "timeout": "timeout"}.get(rc, "crash rc=%s" % rc)
        if rc == 95:
            kind = "harness"
        res["bad"] = dict(kind=kind, rc=rc, cur=cur, err=err, rep=rep, shard=k, file=f)
    else:
        res["json"] = [json.load(open(f + ".json")) for _, f, _ in procs]
    return res


def merge(js):
    o = dict(states=0, transitions=0, traces=0, distinct_outcomes=0, samples=[], bounds=[], assumptions=[], notes={}, exhaustive=True)
    for j in js:
        for k in ("states", "transitions", "traces"):
            o[k] += j[k]
        o["distinct_outcomes"] = max(o["distinct_outcomes"], j["distinct_outcomes"])
        o["samples"] += j["samples"][:max(2, 8 // len(js))]
        for k in ("bounds", "assumptions"):
            for x in j[k]:
                if x not in o[k]:
                    o[k].append(x)
        for k, x in j["notes"].items():
            o["notes"][k] = max(o["notes"].get(k, 0), x) if k.startswith("max_") else o["notes"].get(k, 0) + x
        o["exhaustive"] = o["exhaustive"] and j["exhaustive"]
    return o


def evidence(i, m, wall, violations, extra=None):
    s = SPECS[i]
    cov = dict(states=m["states"], transitions=m["transitions"], traces_validated_against_impl=m["traces"],
               distinct_outcomes=m["distinct_outcomes"], samples=m["samples"][:12] or ["(none)"], exhaustive=m["exhaustive"],
               bounds=m["bounds"], counting=s.get("counting", "states: distinct inputs / implementation states enumerated; transitions: operations executed on the real code; traces: complete cases or sequences whose every observation was compared with the reference model"))
    cov.update(m["notes"])
    if extra:
        cov.update(extra)
    e = dict(property=i, tier=TIER, seed=SEED, level=s.get("level", "model_checking"), coverage=cov,
             assumptions=m["assumptions"] + s.get("assumptions", DEFAULT_ASSUME), wall_s=round(wall, 3), violations=violations)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(V, "evidence", i + ".json"), "w"), indent=1)


def check(i):
    t0 = time.time()
    bins = build([i])
    if bins is None:
        log("build failed for", i)
        return 2
    log("%s built in %.1fs" % (i, time.time() - t0))
    r = run_once(i, bins[i], "1")
    if r["bad"]:
        b1 = r["bad"]
        if b1["kind"] in ("harness", "timeout"):
            log("check error (%s): %s\n%s" % (b1["kind"], b1["cur"], b1["err"][-3000:]))
            return 2
        # replay before reporting: the whole run is deterministic, so the same case must fail again
        r2 = run_once(i, bins[i], "2")
        b2 = r2["bad"]
        if not b2:
            log("failure did not reproduce on replay: %s %s\n%s" % (b1["kind"], b1["cur"], b1["err"][-3000:]))
            return 2
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        rp = os.path.join(V, "replays", "%s-%s.txt" % (i, hashlib.sha1((b2["kind"] + b2["cur"]).encode()).hexdigest()[:8]))
        with open(rp, "w") as f:
            f.write("property: %s\nkind: %s\ncase: %s\nreplay: VERIF_TIER=%s VERIF_SEED=%d python3 %s/vrun.py check %s\n\n%s\n%s\n" %
                    (i, b2["kind"], b2["cur"], TIER, SEED, V, i, b2["rep"], b2["err"]))
        m = dict(states=0, transitions=0, traces=0, distinct_outcomes=0, samples=[b2["cur"][:2000]], bounds=[], assumptions=[], notes={}, exhaustive=False)
        jf = b2["file"] + ".json"
        if os.path.exists(jf):
            m = merge([json.load(open(jf))])
        evidence(i, m, time.time() - t0, 1)
        for l in r["known"]:
            print(l, end="")
        log("%s case=%s" % (b2["kind"], b2["cur"][:1500]))
        log((b2["rep"] or b2["err"])[:3000])
        print("VIOLATION property=%s replay=%s" % (i, rp), flush=True)
        return 1
    m = merge(r["json"])
    evidence(i, m, time.time() - t0, 0)
    for l in r["known"]:
        print(l, end="")
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs" %
          (i, TIER, m["states"], m["transitions"], m["traces"], m["distinct_outcomes"], time.time() - t0))
    return 0


def selftest():
    SPECS["s00"] = dict(mode="S", src=["s00_selftest.cpp"])
    b = build(["s00"])
    for w in "ok spin relaxed lost atomicity deadlock uaf shared timed".split():
        r = subprocess.run([b["s00"], "--id", "S00"], env=dict(os.environ, WHAT=w), capture_output=True, text=True)
        print(w, r.returncode, r.stdout.strip(), r.stderr[:160].replace("\n", " "))
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    c = sys.argv[1]
    if c == "setup":
        ids = sorted(SPECS)
        bins = build(ids, keep_going=True)
        if bins is None:
            log("setup: some harnesses did not build (each check reports its own)")
        return 0
    if c == "closure":
        # find the sources a check needs from an empty list, then keep only those that are needed
        os.environ["VERIF_CLOSURE"] = "1"
        for i in sys.argv[2:]:
            cl = closure()
            if not os.environ.get("KEEP"):
                cl.pop(i, None)
                cl.pop(i + ".pb", None)
            EXTRA.pop(i, None)
            PBX.pop(i, None)
            bins, out = build_auto(i)
            if bins is None:
                log(out[-5000:])
                return 2
            cl[i] = sorted(set(cl.get(i, [])) | set(EXTRA.get(i, [])))
            cl[i + ".pb"] = sorted(set(cl.get(i + ".pb", [])) | set(PBX.get(i, [])))
            # drop what the link does not need
            EXTRA.pop(i, None)
            for f in list(cl[i]):
                keep = list(cl[i])
                cl[i] = [x for x in keep if x != f]
                if not link_ok(i):
                    cl[i] = keep
            json.dump({k: x for k, x in sorted(cl.items()) if x}, open(os.path.join(V, "checks", "closure.json"), "w"), indent=0)
            log(i, len(cl[i]), "sources")
        return 0
    if c == "selftest":
        return selftest()
    if c == "list":
        print("\n".join(sorted(SPECS)))
        return 0
    if c == "check":
        rc = 0
        for i in sys.argv[2:]:
            x = check(i)
            rc = max(rc, x) if rc != 1 else 1
        return rc
    if c == "build":
        return 0 if build(sys.argv[2:] or sorted(SPECS)) else 2
    if c == "replay":
        print(open(sys.argv[2]).read())
        i = [l.split()[1] for l in open(sys.argv[2]) if l.startswith("property:")][0]
        return check(i)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
