#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough] [--replay FILE] [--unit NAME] [--only REGEX]

Builds the harness of one property from /repo's current tree, explores it, writes
evidence/<PROPERTY>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit 0: held on everything explored.  Exit 1: violation.  Exit 2: the check
itself could not run."""
import sys
sys.dont_write_bytecode = True
import os, glob, json, re, subprocess, hashlib, time, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
MC = os.path.join(VERIF, "mc")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

DEFS = "-DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB".split()
JOBS = os.cpu_count() or 4


def log(*a):
    print(*a, flush=True)


def walk(d, exts):
    out = []
    for b, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ("mock", "test", "tests", "_build", ".git"))
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(b, f))
    return out


def repo_sources():
    return [f for f in walk(os.path.join(REPO, "buildcc"), (".cpp",)) if "/src/" in f]


def include_dirs():
    inc = [os.path.join(REPO, "buildcc")]
    for b, ds, fs in os.walk(os.path.join(REPO, "buildcc")):
        ds[:] = sorted(x for x in ds if x not in ("mock", "test", "tests"))
        if os.path.basename(b) == "include":
            inc.append(b)
    return inc


class BuildError(Exception):
    pass


FLAVORS = {
    "plain": dict(flags=["-O0"], tf="patched"),
    "race": dict(flags=["-O1", "-g1", "-fsanitize=thread", "-include" + os.path.join(MC, "noextern.h")], tf="patched"),
    "free": dict(flags=["-O0"], tf="real"),
    "asan": dict(flags=["-O1", "-g1"], tf="patched"),
}


def file_hash(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()


def build(harness, flavor, extra_repo=(), extra_inc=()):
    """returns path of the harness binary"""
    fl = FLAVORS[flavor]
    out = os.path.join(BUILD, flavor)
    os.makedirs(out, exist_ok=True)
    tfroot = os.path.join(BUILD, "tf_" + fl["tf"] + "_" + file_hash(os.path.join(MC, "tfpatch.py"))[:8])
    if not os.path.exists(os.path.join(tfroot, "ok")):
        import importlib.util
        sp = importlib.util.spec_from_file_location("tfpatch", os.path.join(MC, "tfpatch.py"))
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        os.makedirs(tfroot, exist_ok=True)
        m.main(os.path.join(tfroot, "taskflow"), patch=fl["tf"] == "patched")
        open(os.path.join(tfroot, "ok"), "w").close()
    incs = ["-I" + tfroot, "-I" + os.path.join(MC, "shim"), "-I" + MC]
    incs += ["-I" + d for d in include_dirs()] + ["-I" + os.path.join(REPO, d) for d in extra_inc]
    base = ["g++", "-std=gnu++17", "-w", "-pipe"] + DEFS + fl["flags"] + incs
    hdrs = walk(os.path.join(REPO, "buildcc"), (".h", ".hpp"))
    for d in extra_inc:
        hdrs += walk(os.path.join(REPO, d), (".h", ".hpp"))
    mchdrs = walk(MC, (".h", ".hpp", ".py", ".inc"))
    hkey = hashlib.sha256(("\n".join(h + file_hash(h) for h in hdrs + mchdrs)).encode()).hexdigest()
    jobs = []
    srcs = [(s, base) for s in repo_sources()]
    for s in extra_repo:
        s, defs = s if isinstance(s, tuple) else (s, [])
        for x in sorted(glob.glob(os.path.join(REPO, s))):
            srcs.append((x, base + list(defs)))
    hs = [os.path.join(MC, h) for h in harness]
    for h in hs:
        srcs.append((h, base + ["-DHARNESS=1"]))
    noinst = [a for a in base if not a.startswith("-fsanitize") and "noextern" not in a]
    srcs.append((os.path.join(MC, "rt.cpp"), noinst + ["-fno-threadsafe-statics", "-O2"]))
    srcs.append((os.path.join(MC, "core.cpp"), noinst + ["-fno-threadsafe-statics", "-O2"]))
    if flavor == "race":
        srcs.append((os.path.join(MC, "rt_tsan.cpp"), noinst + ["-fno-threadsafe-statics", "-O2"]))
    objs = []
    for s, cmd in srcs:
        key = hashlib.sha256((hkey + file_hash(s) + s + " ".join(cmd)).encode()).hexdigest()[:24]
        o = os.path.join(out, key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, cmd))

    def comp(j):
        s, o, cmd = j
        p = subprocess.run(cmd + ["-c", s, "-o", o + ".tmp"], capture_output=True, text=True)
        if p.returncode != 0:
            return s + "\n" + p.stderr[-3000:]
        os.replace(o + ".tmp", o)
        return None
    # longest first
    jobs.sort(key=lambda j: (MC not in j[0], -os.path.getsize(j[0])))
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(comp, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs[:3]))
    lkey = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
    exe = os.path.join(out, "h_" + lkey)
    if not os.path.exists(exe):
        p = subprocess.run(["g++", "-rdynamic", "-o", exe + ".tmp"] + objs + ["-lfmt", "-lspdlog", "-pthread", "-ldl"],
                           capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError("link: " + p.stderr[-4000:])
        os.replace(exe + ".tmp", exe)
    return exe


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", l)
            if m:
                out.append(m.groups())
    return out


def run_harness(exe, prop, tier, part, known_keys, unit=None, only=None, limit=None):
    scratch = tempfile.mkdtemp(prefix="mcscratch.", dir="/dev/shm" if os.path.isdir("/dev/shm") else "/tmp")
    os.chmod(scratch, 0o755)
    res = os.path.join(scratch, "result.json")
    kf = os.path.join(scratch, "known")
    open(kf, "w").write("\n".join(known_keys))
    cmd = [exe, "--prop", prop, "--tier", tier, "--out", res, "--scratch", scratch, "--known", kf, "--part", part,
           "--limit", str(limit or 600)]
    if unit:
        cmd += ["--unit", unit]
    if only:
        cmd += ["--only", only]
    try:
        p = subprocess.run(cmd, stdin=subprocess.DEVNULL)
        if not os.path.exists(res):
            return None, p.returncode
        return json.load(open(res)), p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--unit")
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.prop not in CHECKS:
        log("unknown property", a.prop)
        return 2
    spec = CHECKS[a.prop]
    t0 = time.time()
    tier = a.tier
    unit = a.unit
    want_part = None
    if a.replay:
        r = json.load(open(a.replay))
        tier, unit, want_part = r["tier"], r["unit"], r["part"]
    known = [k for k in load_known() if k[0] == a.prop]
    known_keys = [k[1] for k in known]
    cov = {"states": 0, "transitions": 0, "executions": 0, "traces_validated_against_impl": 0, "units": 0,
           "distinct_outcomes": 0, "samples": [], "parts": {}}
    viol, capped = [], False
    broken = None
    for part in spec["parts"]:
        if want_part and part["name"] != want_part:
            continue
        if part.get("tier") and tier != part["tier"]:
            continue
        tb = time.time()
        try:
            exe = build(part["harness"], part["flavor"], part.get("repo", ()), part.get("inc", ()))
        except BuildError as e:
            log("build failed:", e)
            return 2
        log(f"[{a.prop}/{part['name']}] built {part['flavor']} in {time.time()-tb:.1f}s")
        te = time.time()
        limit = spec.get("limit", {}).get(tier, 420 if tier == "quick" else 5400)
        r, rc = run_harness(exe, a.prop, tier, part["name"], known_keys, unit, a.only, limit)
        if r is None:
            log("harness failed, exit", rc)
            return 2
        log(f"[{a.prop}/{part['name']}] units={r['units']} executions={r['executions']} states={r['states']} "
            f"transitions={r['transitions']} outcomes={r['outcomes']} traces={r['traces']} in {time.time()-te:.1f}s"
            + (" CAPPED" if r["capped"] else ""))
        for k, kk in (("states", "states"), ("transitions", "transitions"), ("executions", "executions"), ("units", "units"),
                      ("traces_validated_against_impl", "traces"), ("distinct_outcomes", "outcomes")):
            cov[k] += r[kk]
        cov["samples"] += r["samples"]
        cov["parts"][part["name"]] = {k: r[k] for k in ("units", "executions", "states", "transitions", "outcomes", "traces", "capped", "notes")}
        capped = capped or r["capped"]
        if r["errors"]:
            log("internal errors of the harness:\n  " + "\n  ".join(e["unit"] + ": " + e["key"] for e in r["errors"][:5]))
            broken = r["errors"]
        fresh = [v for v in r["violations"] if v["key"] not in known_keys]
        for v in r["violations"]:
            v["part"] = part["name"]
            if v["key"] in known_keys:
                viol.append((v, True))
        # confirm: run the unit again alone, the same violation must come back
        confirmed = False
        for v in fresh[:12]:
            if confirmed:
                break
            # the unit alone, in a new process, up to three times; any violation
            # it shows then is reported (the first one found may depend on addresses)
            for _ in range(3):
                if tier == "quick" and time.time() - t0 > 750:
                    break
                r2, _ = run_harness(exe, a.prop, tier, part["name"], known_keys, v["unit"], None, 130 if tier == "quick" else 300)
                again = [x for x in (r2 or {}).get("violations", []) if x["key"] not in known_keys]
                for x in again:
                    x["part"] = part["name"]
                same = [x for x in again if x["key"] == v["key"]]
                if again:
                    viol.append(((same or again)[0], False))
                    confirmed = True
                    break
            if not confirmed:
                log("not reproduced, dropped:", v["key"])
                cov.setdefault("not_reproduced", []).append(v["key"])
        if confirmed:
            break
    fresh = [v for v, k in viol if not k]
    cov["samples"] = cov["samples"][:12]
    cov["capped"] = capped
    cov["bounds"] = spec["bounds"].get(tier, spec["bounds"]["quick"])
    cov["exhaustive"] = not capped
    cov["rerun_confirmed"] = len(fresh)
    ev = {"property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"],
          "coverage": cov, "assumptions": spec.get("assumptions", []),
          "violations": len(fresh), "wall_s": round(time.time() - t0, 1)}
    if not a.replay and not unit and not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    seen = set()
    for v, isk in viol:
        if isk and v["key"] not in seen:
            seen.add(v["key"])
            desc = [k[2] for k in known if k[1] == v["key"]][0]
            log(f"KNOWN-FINDING: property={a.prop} {desc}")
    if fresh:
        v = fresh[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha256((v["unit"] + v["key"]).encode()).hexdigest()[:10]
        rp = os.path.join(VERIF, "replays", f"{a.prop}-{h}.json")
        json.dump({"property": a.prop, "tier": tier, "part": v["part"], "unit": v["unit"], "key": v["key"], "detail": v["detail"],
                   "how": f"python3 {VERIF}/check.py {a.prop} --replay {rp}"}, open(rp, "w"), indent=1)
        log("what failed:", v["key"])
        log(v["detail"])
        log(f"VIOLATION property={a.prop} replay={rp}")
        return 1
    if broken:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
