#!/usr/bin/env python3
"""Build the monitors of one property against /repo's working tree, drive them, and decide.

usage: run_check.py <property-id> [--tier quick|thorough] [--seed N] [--keep] [--family F] [--scale X]
       run_check.py --replay <replay.json>
Exit 0: held on everything executed.  Exit 1: VIOLATION line printed.  Exit 2: inconclusive / harness error.
"""
import argparse, concurrent.futures as cf, fnmatch, json, math, os, re, shutil, struct, subprocess, sys, tempfile, time, zlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS, BUILDS  # noqa: E402

NPROC = os.cpu_count() or 4
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:strict_init_order=1:allocator_may_return_null=0:malloc_fill_byte=190:max_malloc_fill_size=1048576",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1",
    "MSAN_OPTIONS": "exitcode=99:halt_on_error=1",
}


class HarnessError(Exception):
    pass


def build(check, tmp, log):
    """compile every (build, group) in parallel; returns list of (build name, binary)"""
    jobs, links = [], []
    for g in CHECKS[check]["groups"]:
        b = BUILDS[g["build"]]
        objs = []
        for src in ["main.cpp"] + g["src"]:
            # "file.cpp@DEF=1;DEF2=x" compiles the file with those macros defined
            fn, _, defs = src.partition("@")
            obj = os.path.join(tmp, "%s__%s_%08x.o" % (g["build"], re.sub(r"[^\w]", "_", src), zlib.crc32(" ".join(g.get("flags", [])).encode())))
            objs.append(obj)
            cmd = [b["cxx"], "-std=c++14", "-c", os.path.join(VERIF, "harness", fn), "-o", obj] + ["-D" + d for d in defs.split(";") if d] + [
                   "-I", os.path.join(REPO, "src"), "-isystem", "/usr/include/eigen3", "-I", os.path.join(VERIF, "harness"), "-I", os.path.join(VERIF, "harness", "mocks"),
                   "-w"] + b["flags"] + g.get("flags", [])
            if (obj, cmd) not in jobs:
                jobs.append((obj, cmd))
        exe = os.path.join(tmp, "bin_%s_%d" % (g["build"], len(links)))
        links.append((g, exe, [b.get("ld", b["cxx"])] + objs + ["-o", exe] + b["flags"] + b.get("link", []) + g.get("link", [])))

    def run(cmd):
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
        if os.environ.get("VT_TIME"):
            sys.stderr.write("%6.1f %s\n" % (time.time() - t, cmd[cmd.index("-o") + 1]))
        return p.returncode, p.stdout

    with cf.ThreadPoolExecutor(NPROC) as ex:
        for (obj, cmd), (rc, out) in zip(jobs, ex.map(lambda j: run(j[1]), jobs)):
            if rc:
                raise HarnessError("compile failed: %s\n%s" % (" ".join(cmd), out[:6000]))
        for (g, exe, cmd), (rc, out) in zip(links, ex.map(lambda j: run(j[2]), links)):
            if rc:
                raise HarnessError("link failed: %s\n%s" % (" ".join(cmd), out[:6000]))
    return [(g, exe) for g, exe, _ in links]


def crash_kind(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"runtime error: (.+)", err)
    if m:
        return "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]
    if "WARNING: MemorySanitizer" in err:
        return "msan:use-of-uninitialized-value"
    m = re.search(r"WARNING: ThreadSanitizer: ([\w ()-]+)", err)
    if m:
        return "tsan:" + m.group(1).split(" (pid")[0]
    m = re.search(r"Assertion `(.{0,120})' failed|Assertion `(.{0,120})", err)
    if m:
        return "assert:" + (m.group(1) or m.group(2))[:80]
    return "exit:%s" % rc


def err_where(err):
    """first frame that lies in the repository"""
    m = re.search(r"(/src/[\w/]+\.(?:hpp|h)):(\d+)", err)
    return m.group(1) if m else "?"


def run_range(g, exe, fam, start, end, seed, tmp, timeout, tag):
    """run [start,end); restart after crashes; returns list of summaries, violations"""
    viol, summaries, digs, crashes, cur0 = [], [], set(), 0, start
    env = dict(os.environ, **SAN_ENV)
    env.update(g.get("env", {}))
    retry = {}
    while cur0 < end:
        out = os.path.join(tmp, "out_%s_%d" % (tag, cur0))
        errf = open(out + ".err", "w+b")
        hung = False
        cmd = BUILDS[g["build"]].get("wrap", []) + [exe, "--run", fam, str(cur0), str(end), str(seed), out]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=errf, env=env)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); hung, rc = True, -9
        errf.seek(0)
        err = errf.read().decode("utf8", "replace")
        errf.close()
        cur, done = -1, 0
        try:
            cur, done = struct.unpack("qq", open(out + ".cur", "rb").read(16))
        except Exception:
            pass
        if os.path.exists(out + ".jsonl"):
            for line in open(out + ".jsonl"):
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                (summaries if "summary" in j else viol).append(j)
        if os.path.exists(out + ".dig"):
            d = open(out + ".dig", "rb").read()
            digs.update(struct.unpack("%dQ" % (len(d) // 8), d))
        for s in (".jsonl", ".cur", ".dig", ".err"):
            try:
                os.unlink(out + s)
            except OSError:
                pass
        if done and rc == 0:
            break
        if cur < cur0:
            raise HarnessError("%s %s died before its first case (rc %s): %s" % (exe, fam, rc, err[-2000:]))
        if done:  # e.g. a sanitizer report at exit
            viol.append({"violation": "crash/" + crash_kind(rc, err), "family": fam, "case": cur, "seed": seed, "cfg": "at exit", "detail": err[-3000:]})
            break
        if hung:
            n = retry.get(cur, 0)
            if n == 0 and cur > cur0:      # slow range rather than a hang: continue from the case it was in
                retry[cur] = 1
                cur0 = cur
                continue
            if n <= 1 and cur == cur0 and retry.setdefault(cur, 1) == 1:
                retry[cur] = 2              # once more, alone at the head of the range
                continue
            viol.append({"violation": "hang", "family": fam, "case": cur, "seed": seed, "cfg": "", "detail": "no progress within %ds, twice" % timeout})
        else:
            viol.append({"violation": "crash/" + crash_kind(rc, err) + "@" + err_where(err), "family": fam, "case": cur, "seed": seed, "cfg": "", "detail": err[-4000:]})
        crashes += 1
        if crashes >= 4:
            break
        cur0 = cur + 1
    return fam, g["build"], summaries, viol, digs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--family")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--nobuild", help="directory of binaries kept by --keep")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        a.prop = r["property"]
    if a.prop not in CHECKS:
        print("unknown property %r" % a.prop, file=sys.stderr)
        return 2
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    spec = CHECKS[a.prop]
    spec["groups"] = [g for g in spec["groups"] if tier == "thorough" or not g.get("thorough_only")]
    tmp = tempfile.mkdtemp(prefix="vt_%s_" % a.prop)
    try:
        if a.nobuild:
            bins = [(g, os.path.join(a.nobuild, "bin_%s_%d" % (g["build"], i))) for i, g in enumerate(spec["groups"])]
        else:
            bins = build(a.prop, tmp, sys.stderr)
        tb = time.time() - t0
        if a.keep:
            print("kept in " + tmp, file=sys.stderr)
        tasks = []
        for g, exe in bins:
            lst = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, env=dict(os.environ, **SAN_ENV)).stdout.split("\n")
            for line in lst:
                if not line.strip():
                    continue
                name, q, t = line.split()
                if a.replay:
                    if name == r["family"] and g["build"] == r["build"]:
                        tasks.append((g, exe, name, r["case"], r["case"] + 1, r["seed"]))
                    continue
                if a.family and not fnmatch.fnmatch(name, a.family):
                    continue
                if g.get("families") and not any(fnmatch.fnmatch(name, f) for f in g["families"]):
                    continue
                n = int(q) if tier == "quick" else int(t)
                n = max(1, int(math.ceil(n * a.scale * g.get("scale", 1.0))))
                chunk = max(1, int(math.ceil(n / (2.0 * NPROC))))
                for s in range(0, n, chunk):
                    tasks.append((g, exe, name, s, min(n, s + chunk), a.seed))
        if not tasks:
            raise HarnessError("no family to run")
        timeout = 240 if tier == "quick" else 3000
        res = []
        workers = NPROC if not spec.get("serial") else spec["serial"]
        with cf.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(run_range, g, exe, f, s, e, sd, tmp, timeout, "%d" % i) for i, (g, exe, f, s, e, sd) in enumerate(tasks)]
            for f in futs:
                res.append(f.result())
    except (HarnessError, subprocess.TimeoutExpired) as e:
        print("ERROR property=%s %s" % (a.prop, e), file=sys.stderr)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)

    ev, mx, samples, digs, fams = {}, {}, [], set(), {}
    evaluations = checks = nontriv = other = 0
    viol = []
    for fam, b, summ, v, d in res:
        digs |= d
        for s in summ:
            evaluations += s["evaluations"]; checks += s["checks"]; nontriv += s["nontrivial"]
            fr = fams.setdefault("%s[%s]" % (fam, b), {"cases": 0, "oracle_decisions": 0})
            fr["cases"] += s["evaluations"]; fr["oracle_decisions"] += s["checks"]
            for k, n in s["events"].items():
                ev[fam + "." + k] = ev.get(fam + "." + k, 0) + n
            for k, n in s["maxima"].items():
                k = fam + "." + k
                mx[k] = max(mx.get(k, -1e308), n if n is not None else 1e308)
            if len([x for x in samples if x.startswith(fam + "#")]) < 2:
                samples += s["samples"][:1]
        for x in v:
            x["build"] = b
            if spec.get("crash_only") and not x["violation"].startswith(("crash/", "hang")):
                other += 1      # a matter for the property that owns this workload's oracle
                continue
            viol.append(x)

    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == a.prop]
    seen_known, fresh = {}, []
    for x in viol:
        key = x["family"] + "/" + x["violation"]
        m = [k for k in known if fnmatch.fnmatchcase(key, k["key"]) and fnmatch.fnmatchcase(x.get("cfg", ""), k.get("cfg", "*"))]
        if m:
            seen_known[m[0]["what"]] = 1
        else:
            fresh.append((key, x))
    wall = time.time() - t0
    if not a.replay and not a.family and not a.nobuild:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        evd = {"property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration",
               "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(digs), "rule": spec["rule"],
                            "samples": samples[:12] or ["(none)"], "oracle_decisions": checks, "oracle_failures_left_to_other_checks": other, "families": fams, "events": ev, "worst_observed": mx,
                            "builds": sorted({g["build"] for g, _ in bins})},
               "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(fresh)}
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1, default=str)
    for w in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, w))
    print("property=%s tier=%s seed=%d build=%.1fs total=%.1fs cases=%d distinct=%d decisions=%d violations=%d" %
          (a.prop, tier, a.seed, tb, wall, evaluations, len(digs), checks, len(fresh)))
    if a.family or a.replay or os.environ.get("VT_SHOW"):
        print(json.dumps({"events": ev, "maxima": mx, "families": fams}, indent=1))
    if fresh:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        done = {}
        for key, x in fresh:
            done.setdefault(key, []).append(x)
        for n, (key, xs) in enumerate(sorted(done.items(), key=lambda kv: kv[0])):
            x = xs[0]
            path = os.path.join(rd, "%s-%d.json" % (a.prop, n))
            with open(path, "w") as f:
                json.dump({"property": a.prop, "key": key, "family": x["family"], "case": x["case"], "seed": x["seed"], "build": x["build"],
                           "cfg": x.get("cfg"), "detail": x.get("detail"), "replay": "python3 run_check.py --replay " + path}, f, indent=1)
            if n < 12:
                print("VIOLATION property=%s replay=%s" % (a.prop, path))
                print("   %s (x%d) case %s [%s] %s" % (key, len(xs), x["case"], x.get("cfg", ""), x.get("detail", "")[:400]))
        return 1
    if a.replay:
        return 0
    if evaluations == 0 or checks == 0 or not digs:
        print("INCONCLUSIVE property=%s: nothing was decided" % a.prop, file=sys.stderr)
        return 2
    for k, n in spec.get("require", {}).items():
        if sum(v for e, v in ev.items() if fnmatch.fnmatch(e, k)) < n * a.scale and not a.family:
            print("INCONCLUSIVE property=%s: event %s seen fewer than %d times" % (a.prop, k, n), file=sys.stderr)
            return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
