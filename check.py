#!/usr/bin/env python3
"""Runs the monitors that decide one property of neo-sonar/neo.

  check.py C01                    decide C01 on /repo's working tree (tier and seed from VERIF_TIER / VERIF_SEED)
  check.py C01 --replay FILE      run again the one case recorded in a replay file
  check.py --setup                check the toolchain

Exit 0: held on everything explored. Exit 1 plus a VIOLATION line: broken. Exit 2: no answer (a harness did not build or run).
"""
import argparse, concurrent.futures as cf, glob, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NEO_REPO", "/repo")
CLANG = "clang++-18"
GXX = "g++"
SAN = "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"

# name -> (compiler, flags, needs cpu flag)
VARIANTS = {
    "asan":   (CLANG, f"-O1 -g1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1 {SAN}", None),
    "asan512":(CLANG, f"-O1 -g1 -march=x86-64-v4 -DNEO_HAS_XSIMD=1 {SAN}", "avx512bw"),
    "asan2":  (CLANG, f"-O1 -g1 -march=x86-64 {SAN}", None),
    "rel":    (CLANG, "-O2 -g1 -DNDEBUG -march=x86-64-v3 -DNEO_HAS_XSIMD=1", None),
    "noxs":   (CLANG, "-O2 -g1 -DNDEBUG -march=x86-64-v3", None),
    "sse2":   (CLANG, "-O2 -g1 -DNDEBUG -march=x86-64", None),
    "sse41":  (CLANG, "-O2 -g1 -DNDEBUG -march=x86-64-v2", None),
    "avx512": (CLANG, "-O2 -g1 -DNDEBUG -march=x86-64-v4 -DNEO_HAS_XSIMD=1", "avx512bw"),
    "gcc":    (GXX, "-O2 -g1 -DNDEBUG -march=x86-64-v3 -DNEO_HAS_XSIMD=1", None),
    "tsan":   (CLANG, "-O1 -g1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1 -fsanitize=thread", None),
    "tsan2":  (CLANG, "-O1 -g1 -march=x86-64 -fsanitize=thread", None),
    "vg":     (CLANG, "-O1 -g1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1 -DMON_VALGRIND=1", None),
    "dbg":    (CLANG, "-O0 -g1 -march=x86-64-v3 -DNEO_HAS_XSIMD=1", None),
}

sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402

EXIT_NOANSWER = 2


def cpu_flags():
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


def known_findings():
    """known: property=<id> key=<key> ... lines"""
    known = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
    return known


def compile_one(harness, variant, outdir, lean=False):
    comp, flags, _ = VARIANTS[variant]
    out = os.path.join(outdir, f"{harness}.{variant}")
    cmd = [comp, "-std=c++20", *flags.split(), "-w", "-pthread", *(["-DMON_LEAN=1"] if lean else []), f'-DMON_VARIANT="{variant}"', f"-I{REPO}/src", f"-I{HERE}/shim",
           f"-I{HERE}/harness", os.path.join(HERE, "harness", harness + ".cpp"), "-o", out]
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return out, r.returncode, r.stdout, time.time() - t


def limits(variant):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if "san" not in variant and variant != "vg":
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f


def run_one(binary, variant, args, timeout):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:abort_on_error=0:hard_rss_limit_mb=5000:allocator_may_return_null=0:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:report_signal_unsafe=0"
    t = time.time()
    try:
        cmd = [binary, *args]
        if variant == "vg":
            cmd = ["valgrind", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no", "--track-origins=no", "-q", *cmd]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=limits(variant))
        try:
            out, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            rc = "timeout"
    except OSError as e:
        return dict(rc="oserror", out="", err=str(e), wall=0)
    return dict(rc=rc, out=out.decode("utf8", "replace"), err=err.decode("utf8", "replace"), wall=time.time() - t)


def crash_kind(err, rc):
    for pat, name in (
        (r"MDSPAN-MONITOR: ([^\n]*)", "mdspan-bounds"),
        (r"ERROR: AddressSanitizer: ([\w-]+)", "asan"),
        (r"WARNING: ThreadSanitizer: ([\w -]+)", "tsan"),
        (r"runtime error: ([^\n]*)", "ubsan"),
        (r"==\d+== ((?:Conditional jump|Use of uninit|Invalid|Syscall param|Source and dest|Argument)[^\n]*)", "memcheck"),
        (r"[Aa]ssertion [`']?([^'\n]*)", "assert"),
        (r"terminate called[^\n]*\n?[^\n]*", "terminate"),
    ):
        m = re.search(pat, err)
        if m:
            d = m.group(1) if m.groups() else m.group(0)
            return name, re.sub(r"\s+", " ", d)[:200]
    return "signal", str(rc)


def interpret(res):
    """-> (result dict or None, list of violations, error or None)"""
    m = re.search(r"^MON-RESULT (\{.*\})$", res["out"], re.M)
    if m and res["rc"] in (0, 1):
        d = json.loads(m.group(1))
        return d, d["violations"], None
    m = re.search(r"^MON-(CRASH|HANG) (\{.*\})$", res["out"], re.M)
    if m:
        d = json.loads(m.group(2))
        if m.group(1) == "HANG":
            return None, [dict(key="hang", section=d["section"], case=d["case"], desc=d["desc"], msg="one case used more CPU time than its limit", times=1)], None
        kind, detail = crash_kind(res["err"], res["rc"])
        return None, [dict(key="crash-" + kind, section=d["section"], case=d["case"], desc=d["desc"], msg=detail, times=1)], None
    if res["rc"] == 77 or re.search(r"ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|MDSPAN-MONITOR|==\d+== (Conditional jump|Use of uninit|Invalid)", res["err"]):
        kind, detail = crash_kind(res["err"], res["rc"])
        return None, [dict(key="crash-" + kind, section="?", case=-1, desc="", msg=detail, times=1)], None
    return None, [], f"harness ended with {res['rc']} and no result: {res['err'][-800:]}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--variant", help="only this variant (development)")
    ap.add_argument("--scale", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()

    if a.setup:
        with tempfile.TemporaryDirectory(dir=HERE, prefix=".build-") as td:
            out, rc, log, _ = compile_one("selftest", "asan", td)
            if rc != 0:
                print(log[-4000:])
                return 1
            r = run_one(out, "asan", [], 120)
            ok = "MON-RESULT" in r["out"] and r["rc"] == 1 and '"key":"planted"' in r["out"]
            print("selftest", "ok" if ok else f"FAILED rc={r['rc']} {r['out'][-400:]} {r['err'][-400:]}")
            return 0 if ok else 1

    pid = a.property
    plan = PLAN[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    flags = cpu_flags()
    jobs, skipped = [], []
    for j in plan["jobs"]:
        harness, variant = j[0], j[1]
        opt = j[2] if len(j) > 2 else {}
        if a.variant and variant != a.variant:
            continue
        if opt.get("tier") and opt["tier"] != tier:
            continue
        need = VARIANTS[variant][2]
        if need and need not in flags:
            skipped.append(f"{harness}.{variant} (CPU lacks {need})")
            continue
        jobs.append((harness, variant, opt))

    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        jobs = [(replay["harness"], replay["variant"], {})]
        seed, tier = replay["seed"], replay["tier"]

    build = tempfile.mkdtemp(dir=HERE, prefix=".build-")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    known = known_findings()
    found, errors, results, compile_s = [], [], [], {}
    retry, broken, built = [], [], set()
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            run_futs = []

            def after_compile(h, v, opt, fut, lean=False):
                out, rc, log, dt = fut.result()
                compile_s[f"{h}.{v}"] = round(dt, 1)
                if rc != 0:
                    # A change may compile only for some compilers or number types: decide on the ones that build.
                    if lean:
                        broken.append((h, v, log))
                    else:
                        retry.append((h, v, opt))
                    return
                built.add(h)
                if lean:
                    skipped.append(f"{h}.{v}: cases with neo's own complex type (did not compile)")
                base = ["--seed", str(seed), "--tier", tier]
                if a.scale or opt.get("scale"):
                    base += ["--scale", str(a.scale or opt.get("scale"))]
                if replay:
                    args = base + ([] if replay["section"] == "?" else ["--only", f"{replay['section']}:{replay['case']}"])
                    run_futs.append((h, v, args, ex.submit(run_one, out, v, args, 800), None))
                    return
                n = opt.get("shards", 4 if tier == "quick" else 8)
                for s in range(n):
                    sig = os.path.join(build, f"{h}.{v}.{s}.sig")
                    args = base + ["--shard", f"{s}/{n}"]
                    run_futs.append((h, v, args, ex.submit(run_one, out, v, args + ["--sigs", sig], 700 if tier == "quick" else 14000), sig))

            pend = {ex.submit(compile_one, h, v, build): (h, v, o) for h, v, o in jobs}
            for fut in cf.as_completed(pend):
                after_compile(*pend[fut], fut)
            pend = {ex.submit(compile_one, h, v, build, True): (h, v, o) for h, v, o in retry}
            for fut in cf.as_completed(pend):
                after_compile(*pend[fut], fut, lean=True)
            for h, v, log in broken:
                if h in built:
                    skipped.append(f"{h}.{v} (did not compile)")
                else:
                    errors.append(f"{h}.{v} does not compile:\n{log[-3000:]}")

            sigs = set()
            for h, v, args, fut, sig in run_futs:
                res = fut.result()
                d, viols, err = interpret(res)
                if any(x["key"] == "hang" for x in viols) and not any(x["key"] == "hang" for x in found):
                    # confirm: CPU time is load independent, but a second look costs little
                    x = viols[0]
                    res2 = run_one(os.path.join(build, f"{h}.{v}"), v, args[:4] + ["--only", f"{x['section']}:{x['case']}"], 800)
                    d2, v2, e2 = interpret(res2)
                    if d2 is not None and not v2:
                        viols, err = [], f"{h}.{v}: a hang in {x['section']}:{x['case']} did not happen again"
                if err:
                    errors.append(f"{h}.{v} {' '.join(args)}: {err}")
                for x in viols:
                    x["harness"], x["variant"] = h, v
                    x["stderr"] = res["err"][-3000:] if x["key"].startswith("crash") else ""
                    found.append(x)
                if d:
                    d["harness"], d["variant"], d["wall"] = h, v, res["wall"]
                    results.append(d)
                if sig and os.path.exists(sig):
                    raw = open(sig, "rb").read()
                    sigs.update(x[0] for x in struct.iter_unpack("<Q", raw[: len(raw) // 8 * 8]))
    finally:
        shutil.rmtree(build, ignore_errors=True)

    # a check may decide on some kinds of violation only; the others belong to other properties
    other = []
    if plan.get("keys"):
        other = [x for x in found if not re.fullmatch(plan["keys"], x["key"])]
        found = [x for x in found if re.fullmatch(plan["keys"], x["key"])]
    fresh = [x for x in found if (pid, x["key"]) not in known]
    listed = {}
    for x in found:
        if (pid, x["key"]) in known:
            listed.setdefault(x["key"], x)

    if replay:
        for x in found:
            print(f"{x['harness']}.{x['variant']} {x['section']}:{x['case']} {x['key']}: {x['msg']} [{x['desc']}]")
            if x["stderr"]:
                print(x["stderr"])
        for e in errors:
            print(e)
        if fresh:
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        return EXIT_NOANSWER if errors else 0

    counters = {}
    for d in results:
        for k, n in d["counters"].items():
            counters[k] = counters.get(k, 0) + n
    metrics = {}
    for d in results:
        for k, n in d["metrics"].items():
            metrics[k] = max(metrics.get(k, 0), n)
    samples, seen = [], set()
    for d in results:
        for s in d["samples"]:
            k = s.split("#")[0]
            if k not in seen:
                seen.add(k)
                samples.append(f"[{d['variant']}] {s}")
    runs = {}
    for d in results:
        r = runs.setdefault(f"{d['harness']}.{d['variant']}", dict(cases=0, oracle_decisions=0, cpu_wall_s=0.0))
        r["cases"] += d["evaluations"]
        r["oracle_decisions"] += d["checks"]
        r["cpu_wall_s"] = round(r["cpu_wall_s"] + d["wall"], 2)
    for k, r in runs.items():
        r["compile_s"] = compile_s.get(k)
    total = sum(d["evaluations"] for d in results)
    decisions = sum(d["checks"] for d in results)

    if total == 0 and not fresh:
        errors.append("no case was run")

    # replay files
    rdir = os.path.join(evdir, "replays")
    first = None
    if fresh:
        os.makedirs(rdir, exist_ok=True)
        for i, x in enumerate(fresh[:20]):
            path = os.path.join(rdir, f"{pid}-{i}.json")
            json.dump(dict(property=pid, seed=seed, tier=tier, harness=x["harness"], variant=x["variant"], section=x["section"], case=x["case"],
                           key=x["key"], desc=x["desc"], msg=x["msg"], stderr=x["stderr"],
                           how=f"python3 {os.path.join(HERE, 'check.py')} {pid} --replay {path}"), open(path, "w"), indent=1)
            first = first or path

    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=total, distinct_nontrivial=len(sigs), rule=plan["rule"], samples=samples[:24], oracle_decisions=decisions,
            events={k: v for k, v in sorted(counters.items())}, maxima=metrics, runs=runs, skipped=skipped,
            known_findings=sorted(listed), harness_errors=len(errors),
            violations_of_other_properties=sorted({x["key"] for x in other}),
        ),
        assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh),
    )
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k, x in sorted(listed.items()):
        print(f"KNOWN-FINDING: property={pid} {k}: {known[(pid, k)]}")
    for e in errors:
        print("HARNESS-ERROR", e)
    if a.v:
        for k, r in runs.items():
            print(k, r)
    shown = set()
    for x in fresh:
        t = (x["key"], x["variant"])
        if t in shown:
            continue
        shown.add(t)
        print(f"  {x['harness']}.{x['variant']} {x['section']}:{x['case']} {x['key']} x{x['times']}: {x['msg']} [{x['desc']}]")
    print(f"{pid} {tier} seed={seed}: {total} cases, {len(sigs)} distinct, {decisions} oracle decisions, {len(fresh)} violations, {time.time() - t0:.1f} s")
    if fresh:
        print(f"VIOLATION property={pid} replay={first}")
        return 1
    return EXIT_NOANSWER if errors else 0


if __name__ == "__main__":
    sys.exit(main())
