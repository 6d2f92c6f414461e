#!/usr/bin/env python3
"""Decide one property of the compiler by symbolic execution of its real code.

usage: check.py ID [--tier quick|thorough] [--job NAME]... [--keep]

Every run compiles /repo's current sources to LLVM bitcode, links them with the
harnesses of the property and the runtime models in lib/, and lets build/sx
explore every path, with an SMT solver (Z3) deciding feasibility and assertions.
A counterexample is replayed against a native build of the same sources (with
ASan and UBSan) before it is reported. See DESIGN.md.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SKULL_REPO", "/repo")
sys.path.insert(0, HERE)
import jobs as J

NPROC = min(8, os.cpu_count() or 1)
SAN = "-fsanitize=signed-integer-overflow,shift,bounds,bool,unreachable,return,integer-divide-by-zero"


def run(cmd, limit=None, **kw):
    if limit:  # end the whole process group when the limit passes
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
        try:
            out = p.communicate(timeout=limit)[0]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out = p.communicate()[0] + b"\n(ended at the time limit)"
        return subprocess.CompletedProcess(cmd, p.returncode, out)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def must(cmd, what, **kw):
    r = run(cmd, **kw)
    if r.returncode:
        raise Fail("%s failed:\n%s" % (what, r.stdout.decode(errors="replace")[-3000:]))
    return r.stdout.decode(errors="replace")


class Fail(Exception):
    pass


class Builder:
    def __init__(self, tmp):
        self.tmp = tmp
        self.llvm = subprocess.check_output(["llvm-config-19", "--cflags"], text=True).split()
        self.llvm = [x for x in self.llvm if x != "-D_GNU_SOURCE"]
        self.sources = sorted(
            os.path.relpath(os.path.join(d, f), REPO)
            for d, _, fs in os.walk(os.path.join(REPO, "skull")) for f in fs if f.endswith(".c"))
        self.pool = ThreadPoolExecutor(NPROC)
        os.makedirs(tmp + "/inc/skull")
        sh = must("xxd -i skull/shim.ll", "xxd", shell=True, cwd=REPO)
        open(tmp + "/inc/skull/shim.h", "w").write(sh.replace("skull_shim_ll", "LL_SHIM").replace("unsigned char", "char"))
        self.native = {}

    def repo_flags(self):
        return ["-std=gnu18", "-I" + self.tmp + "/inc", "-I.", *self.llvm, "-g", "-O0", '-DSKULL_VERSION="x"',
                "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-w"]

    def bitcode(self):
        os.makedirs(self.tmp + "/bc")
        fl = self.repo_flags() + ["-Xclang", "-disable-O0-optnone", SAN, "-fsanitize-trap=all", "-emit-llvm"]

        def one(f):
            extra = ["-Dmain=skull_cli_main"] if f == "skull/cli.c" else []
            must(["clang-18", *fl, *extra, "-c", f, "-o", self.tmp + "/bc/" + f.replace("/", "_") + ".bc"], "compiling " + f, cwd=REPO)
        lib = ["clang-18", "-std=c17", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-w", "-g", *self.llvm, "-emit-llvm"]

        def libone(f):
            ex = [] if f == "purelibc" else ["-D_GNU_SOURCE"]
            must([*lib, *ex, "-c", HERE + "/lib/" + f + ".c", "-o", self.tmp + "/bc/lib_" + f + ".bc"], "compiling lib " + f)
        fs = [self.pool.submit(one, f) for f in self.sources]
        fs += [self.pool.submit(libone, f) for f in ("mio", "purelibc", "mllvm", "mdummy", "extra")]
        for f in fs:
            f.result()
        must(["clang-18", "-x", "ir", "-w", "-emit-llvm", "-c", REPO + "/skull/shim.ll", "-o", self.tmp + "/bc/shim.bc"], "shim.ll")
        must(["clang-18", "-x", "ir", "-w", "-emit-llvm", "-c", HERE + "/lib/frem.ll", "-o", self.tmp + "/bc/lib_frem.bc"], "frem.ll")

    def hflags(self, job):
        return ["-std=gnu18", "-O0", "-w", "-g", "-I" + HERE + "/lib", "-I" + REPO, "-I" + self.tmp + "/inc", "-D_GNU_SOURCE",
                *self.llvm, *["-D%s=%s" % kv for kv in job.get("defs", {}).items()]]

    def harness(self, job):
        d = self.tmp + "/" + job["name"]
        os.makedirs(d, exist_ok=True)
        must(["clang-18", *self.hflags(job), "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-emit-llvm", "-c",
              HERE + "/harness/" + job["src"], "-o", d + "/h.bc"], "compiling harness " + job["src"])
        must(["llvm-link-18", d + "/h.bc", *sorted(glob.glob(self.tmp + "/bc/*.bc")), "-o", d + "/all.bc"], "llvm-link")
        must(["opt-18", "-passes=internalize,globaldce,function(sroa,instsimplify,simplifycfg)",
              "-internalize-public-api-list=harness", d + "/all.bc", "-o", d + "/opt.bc"], "opt")
        return d

    def native_objs(self, san):
        if san in self.native:
            return self.native[san]
        d = self.tmp + "/native_" + san
        os.makedirs(d)
        sf = ["-fsanitize=address", SAN, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] if san == "asan" else []
        objs = []

        def one(cmd, o, cwd=None):
            must([*cmd, "-o", o], "native build", cwd=cwd)
        fs = []
        for f in self.sources:
            o = d + "/" + f.replace("/", "_") + ".o"
            extra = ["-Dmain=skull_cli_main"] if f == "skull/cli.c" else []
            fs.append(self.pool.submit(one, ["clang-18", *self.repo_flags(), *sf, *extra, "-fno-builtin", "-c", f], o, REPO))
            objs.append(o)
        for f in ("replay", "mio", "mllvm", "mdummy", "extra"):
            o = d + "/lib_" + f + ".o"
            fs.append(self.pool.submit(one, ["clang-18", "-std=gnu17", "-O0", "-g", "-w", "-DSX_NATIVE", "-D_GNU_SOURCE",
                                             "-fno-builtin", *self.llvm, *sf, "-c", HERE + "/lib/" + f + ".c"], o))
            objs.append(o)
        o = d + "/shim.o"
        fs.append(self.pool.submit(one, ["clang-18", "-x", "ir", "-w", "-fPIC", "-c", REPO + "/skull/shim.ll"], o))
        objs.append(o)
        for f in fs:
            f.result()
        wraps = sorted(set(re.findall(r"\bM\((\w+)\)\(", open(HERE + "/lib/mio.c").read())) | {"exit", "getenv"})
        self.native[san] = (objs, sf, ["-Wl,--wrap=" + w for w in wraps])
        return self.native[san]

    def native_bin(self, job, san):
        out = self.tmp + "/" + job["name"] + "/native_" + san
        if os.path.exists(out):
            return out
        objs, sf, wraps = self.native_objs(san)
        must(["clang-18", *self.hflags(job), "-DSX_NATIVE", *sf, "-fno-builtin", HERE + "/harness/" + job["src"], *objs, *wraps,
              "-o", out, "-lm", "-Wl,--unresolved-symbols=ignore-all"], "native link")
        return out


def merge(parts):
    t = {"complete": True, "covers": {}, "functions": {}, "errors": {}, "samples": []}
    for p in parts:
        t["complete"] = t["complete"] and p["complete"]
        for k, v in p.items():
            if isinstance(v, bool):
                continue
            if k == "max_query_s":
                t[k] = max(t.get(k, 0), v)
            elif isinstance(v, (int, float)):
                t[k] = t.get(k, 0) + v
        for c, n in p["covers"].items():
            t["covers"][c] = t["covers"].get(c, 0) + n
        for n, f, c in p["functions"]:
            t["functions"][(n, f)] = t["functions"].get((n, f), 0) + c
        t["samples"] += p["samples"]
        for e in p["errors"]:
            k = (e["kind"], e["msg"], e["where"])
            t["errors"].setdefault(k, []).append(e)
    return t


def write_inputs(path, inputs, head=()):
    with open(path, "w") as f:
        for h in head:
            f.write("// %s\n" % h.replace("\n", "\\n"))
        for name, bits, vals in inputs:
            f.write("%s %d %s\n" % (name, bits, " ".join(map(str, vals))))


def replay(b, job, path, san, valgrind=False, timeout=60):
    cmd = [b.native_bin(job, san)]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=98", *cmd]
    env = dict(os.environ, SX_REPLAY=path, SX_SHOW="1", LC_ALL="C.UTF-8",
               ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=1")
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=b.tmp)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace")


def confirm(b, job, err, path):
    """Does the counterexample fail in the native build too? Returns (yes, output)."""
    rc, out = replay(b, job, path, "asan", timeout=20 if err["kind"] == "limit" else 60)
    if rc == "timeout":
        return err["kind"] == "limit", out
    if rc not in (0, 77, 78):
        return True, out
    if rc == 0 and err["kind"] in ("uninit", "mem", "ub"):
        rc2, out2 = replay(b, job, path, "plain", valgrind=True)
        if rc2 not in (0, 77, 78, "timeout"):
            return True, out2
    return False, out


def known_findings(pid):
    known = []
    p = HERE + "/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == pid:
                known.append((re.compile(m.group(2)), m.group(3)))
    return known


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, keep = [], False
    i = 1
    while i < len(a):
        if a[i] == "--tier": i += 1; tier = a[i]
        elif a[i] == "--job": i += 1; only.append(a[i])
        elif a[i] == "--keep": keep = True
        i += 1
    prop = J.PROPS[pid]
    jobs = [dict(j) for j in prop["jobs"] if tier in j.get("tiers", ("quick", "thorough")) and (not only or j["name"] in only)]
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "700" if tier == "quick" else "7200"))
    if not os.path.exists(HERE + "/build/sx") or os.path.getmtime(HERE + "/build/sx") < os.path.getmtime(HERE + "/sx/sx.cpp"):
        must(["make", "-C", HERE], "building sx")
    tmp = tempfile.mkdtemp(prefix="skullsx-")
    try:
        return check(pid, tier, prop, jobs, tmp, t0, budget)
    except Fail as e:
        print("NO ANSWER: property=%s %s" % (pid, e))
        return 2
    finally:
        if keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


def check(pid, tier, prop, jobs, tmp, t0, budget):
    b = Builder(tmp)
    b.bitcode()
    known = known_findings(pid)
    rdir = HERE + "/build/replays/" + pid
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    report, viol, kf, notes, funcs, samples = [], [], set(), [], {}, []
    tot = {k: 0 for k in ("paths", "forks", "pruned", "instrs", "queries", "cache_hits", "sat", "unsat", "unknown", "asserts", "sym_asserts", "domain")}
    solver_s = 0.0; maxq = 0.0; validated = 0; complete_all = True
    for n, job in enumerate(jobs):
        d = b.harness(job)
        left = budget - (time.time() - t0)
        tl = min(job.get("time", 120), max(5, left - 20))
        js = time.time()
        out = d + "/o.json"
        r = run([HERE + "/build/sx", "--entry", "harness", "--out", out, "--procs", str(NPROC), "--time", str(int(tl)),
                 "--max-instr", str(job.get("max_instr", 20000000)), "--solver-ms", str(job.get("solver_ms", 20000)), "--max-errors", "150",
                 *job.get("sx", ["--z3-all"]), d + "/opt.bc"], limit=tl + 90)
        if not os.path.exists(out) and r.returncode == -9:
            parts = []
            for f in glob.glob(out + ".*"):
                try:
                    parts.append(json.load(open(f)))
                except ValueError:
                    pass
            json.dump(parts, open(out, "w"))
            if not parts:
                notes.append("%s: no result within the time limit" % job["name"])
                complete_all = False
                continue
        if not os.path.exists(out):
            raise Fail("sx failed on %s: %s" % (job["name"], r.stdout.decode(errors="replace")[-2000:]))
        t = merge(json.load(open(out)))
        engine_ok = r.returncode == 0
        if not engine_ok:
            notes.append("%s: a worker process of the executor ended abnormally" % job["name"])
            t["complete"] = False
        wall = time.time() - js
        complete_all &= t["complete"]
        for k in tot:
            tot[k] += t.get(k, 0)
        solver_s += t.get("solver_s", 0); maxq = max(maxq, t.get("max_query_s", 0))
        for k, v in t["functions"].items():
            funcs[k] = funcs.get(k, 0) + v
        miss = [c for c in job.get("covers", []) if not t["covers"].get(c)]
        if miss:
            notes.append("%s: not reached: %s" % (job["name"], ", ".join(miss)))
        if not t["complete"]:
            notes.append("%s: exploration not complete (%d states left at the time limit)" % (job["name"], t.get("unexplored", 0)))
        nconf = 0
        order = sorted(t["errors"].items(), key=lambda kv: (kv[0][0] not in ("assert", "mem", "ub", "abort"), kv[0]))
        for (kind, msg, where), insts in order:
            if kind in ("unmodeled", "solver", "exit") and kind != "exit":
                notes.append("%s: %s: %s at %s (%d paths) not decided" % (job["name"], kind, msg, where, sum(e["count"] for e in insts)))
                continue
            if nconf >= 6:
                break
            ok = False
            for k, e in enumerate(insts[:4]):
                path = "%s/%s-%d.txt" % (rdir, job["name"], len(os.listdir(rdir)))
                write_inputs(path, e["inputs"], ["property %s job %s" % (pid, job["name"]), "%s: %s at %s" % (kind, msg, where), *e["notes"], "trace " + " < ".join(e["trace"])])
                ok, o = confirm(b, job, e, path)
                with open(path, "a") as f:
                    f.write("".join("// " + l + "\n" for l in o.splitlines()[:80]))
                if ok:
                    break
            text = "%s: %s at %s" % (kind, msg, where)
            if not ok:
                notes.append("%s: %s did not reproduce natively, not reported" % (job["name"], text))
                continue
            src = re.search(r"SOURCE \d+\n(.*?)\nEND-SOURCE", o, re.S)
            key = "%s|%s|%s" % (job["name"], text, (src.group(1) if src else "").replace("\n", "\\n"))
            m = [d for rx, d in known if rx.search(key)]
            if m:
                kf.update(m)
                continue
            nconf += 1
            viol.append((text, path))
        # concordance of the executor with the native build on completed paths
        pick = t["samples"]
        step = max(1, len(pick) // 6)
        for s in pick[::step][:6]:
            path = tmp + "/sample.txt"
            write_inputs(path, s)
            rc, o = replay(b, job, path, "asan")
            src = re.search(r"SOURCE \d+\n(.*?)\nEND-SOURCE", o, re.S)
            if rc == 0:
                validated += 1
                if len(samples) < 12:
                    samples.append({"job": job["name"], "source": src.group(1)} if src else {"job": job["name"], "inputs": s[:8]})
            elif not t["errors"]:
                notes.append("%s: a path that passes symbolically ends with %s natively: %s" % (job["name"], rc, o[-300:]))
        report.append({"job": job["name"], "harness": job["src"], "bounds": job.get("bounds", ""), "complete": t["complete"], "paths": t.get("paths", 0),
                       "pruned": t.get("pruned", 0), "errors": sum(len(x) for x in t["errors"].values()), "queries": t.get("queries", 0),
                       "assertions": t.get("asserts", 0), "assertions_symbolic": t.get("sym_asserts", 0), "byte_table_decisions": t.get("domain", 0),
                       "solver_s": round(t.get("solver_s", 0), 2), "wall_s": round(wall, 1), "covers": t["covers"]})
        print("%s %-14s %s paths=%d queries=%d asserts=%d wall=%.1fs%s" % (pid, job["name"], "complete" if t["complete"] else "INCOMPLETE",
              t.get("paths", 0), t.get("queries", 0), t.get("asserts", 0), wall, (" errors=%d" % len(t["errors"])) if t["errors"] else ""), flush=True)
        if viol and tier == "quick":
            break
    encoded = sorted("%s (%s)" % (n, f) for (n, f) in funcs if f.startswith("skull/"))
    for x in notes:
        print("NOTE: property=%s %s" % (pid, x))
    for x in sorted(kf):
        print("KNOWN-FINDING: property=%s %s" % (pid, x))
    for text, path in viol:
        print("  " + text)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated, "samples": samples,
                       "exhaustive": complete_all and not notes, "instructions_executed": tot["instrs"], "smt_queries": tot["queries"], "smt_sat": tot["sat"], "smt_unsat": tot["unsat"],
                       "smt_unknown": tot["unknown"], "query_cache_hits": tot["cache_hits"], "byte_table_decisions": tot["domain"], "assertions_checked": tot["asserts"],
                       "assertions_symbolic": tot["sym_asserts"], "solver_s": round(solver_s, 2), "max_query_s": round(maxq, 3), "jobs": report,
                       "functions_encoded": encoded, "functions_encoded_count": len(encoded), "inconclusive": notes, "known_findings": sorted(kf)},
          "assumptions": J.ASSUMPTIONS + prop.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
