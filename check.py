#!/usr/bin/env python3
"""Driver: check.py <property> [quick|thorough]   decide one property
           check.py --replay <file>               show a recorded violation
See DESIGN.md."""
import sys, os, json, subprocess, shutil, time, glob, re, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MC = os.path.join(HERE, "mc")
sys.path.insert(0, HERE)
from checks import CHECKS, REDIRECT   # noqa: E402

NCPU = 8
ENGINE_FLAGS = ["-O2", "-g", "-fno-stack-protector", "-std=gnu11", "-Wall", "-Wno-unused"]
COMMON = ["-g", "-O1", "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer", "-fno-stack-protector", "-fno-pie",
          "-fno-common", "-fcf-protection=none",
          "-U_FORTIFY_SOURCE", "-DHAVE_CONFIG_H", "-D_GNU_SOURCE", "-w"]
ASAN = ["-fsanitize=address", "--param=asan-use-after-return=0"]


try:
    with open(os.path.join(HERE, "floors.json")) as _f:
        FLOORS = json.load(_f)
except FileNotFoundError:
    FLOORS = {}


def floor_key(name, params):
    return name + " " + json.dumps({k: v for k, v in params.items() if k != "max_s"}, sort_keys=True)


# library functions whose accesses are seen in code compiled with -fsanitize=thread
MEMFN = ["memcpy", "memmove", "memset", "memcmp"]

class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def incs():
    return ["-I" + os.path.join(MC, "include"), "-I" + MC, "-I" + os.path.join(MC, "config"),
            "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "src")]


SKIP = {"util/net_common-winsock.c", "util/port/mmap-windows.c", "util/log_stdio.c"}


def repo_sources(dirs):
    out = []
    for d in dirs:
        for ext in ("c", "cc"):
            for f in sorted(glob.glob(os.path.join(REPO, "src", d, "*." + ext))):
                rel = os.path.relpath(f, os.path.join(REPO, "src"))
                if rel not in SKIP:
                    out.append(rel)
    return out


def compile_one(src, obj, flags, redirect, restart=False):
    cc = "g++" if src.endswith(".cc") else "gcc"
    f = [x for x in flags]
    if cc == "g++":
        f += ["-std=gnu++17"]
    else:
        f += ["-std=gnu11"]
    run([cc, "-c", src, "-o", obj] + f)
    if redirect:
        # with restart: the program's variables can be found and reset
        run(["objcopy", "--redefine-syms=" + redirect] +
            (["--rename-section", ".data=repo_data", "--rename-section", ".bss=repo_bss"] if restart else []) + [obj])


class Build:
    """All objects of one check, built from the repository's working tree"""

    def __init__(self, bdir):
        self.dir = bdir
        shutil.rmtree(bdir, ignore_errors=True)
        os.makedirs(bdir)
        self.redirect = os.path.join(bdir, "redirect.txt")
        with open(self.redirect, "w") as f:
            for s in REDIRECT:
                f.write("%s mc_%s\n" % (s, s))
        self.redirect2 = os.path.join(bdir, "redirect2.txt")
        with open(self.redirect2, "w") as f:
            for s in REDIRECT + MEMFN:
                f.write("%s mc_%s\n" % (s, s))

    def variant(self, spec):
        flags = tuple(spec.get("flags", ()))
        return (flags, bool(spec.get("restart", False)), bool(spec.get("tsan", False)))

    def objname(self, src, var):
        h = hashlib.md5(repr((src, var)).encode()).hexdigest()[:10]
        return os.path.join(self.dir, re.sub(r"\W", "_", src)[-60:] + "_" + h + ".o")

    def prepare(self, specs):
        todo = {}
        eng = os.path.join(self.dir, "mc.o")
        todo[eng] = lambda: run(["gcc", "-c", os.path.join(MC, "mc.c"), "-o", eng] + ENGINE_FLAGS + ["-fno-pie", "-I" + MC])
        stubs = os.path.join(self.dir, "stubs.c")
        with open(stubs, "w") as f:
            f.write('void mc_fail(const char *, ...);\n')
            for s in REDIRECT:
                f.write('__attribute__((weak)) void mc_%s() { mc_fail("call of %s is not foreseen here"); }\n' % (s, s))
        stubo = os.path.join(self.dir, "stubs.o")
        todo[stubo] = lambda: run(["gcc", "-c", stubs, "-o", stubo, "-w", "-O1", "-fno-pie", "-fno-builtin", "-I" + MC])
        for spec in specs:
            if spec.get("script"):
                continue
            var = self.variant(spec)
            tsan = var[2]
            base = COMMON + list(var[0]) + incs()
            rflags = base + (["-fsanitize=thread"] + ["-fno-builtin-" + x for x in MEMFN] if tsan else ASAN)
            hflags = base + ([] if tsan else ASAN)
            for s in ["!" + os.path.join(HERE, "harness", h) for h in spec["harness"]] + ["!" + os.path.join(MC, "log_stub.c")] \
                    + repo_sources(spec["dirs"]) + spec.get("extra", []):
                o = self.objname(s, var)
                if o in todo or s in spec.get("exclude", []):
                    continue
                if s.startswith("!"):
                    todo[o] = (lambda s=s, o=o, f=hflags: compile_one(s[1:], o, f, self.redirect))
                else:
                    todo[o] = (lambda s=s, o=o, f=rflags, r=self.redirect2 if tsan else self.redirect, v=var[1]:
                               compile_one(os.path.join(REPO, "src", s), o, f, r, v))
            if tsan:
                ts = os.path.join(self.dir, "tsan.o")
                todo[ts] = lambda: run(["gcc", "-c", os.path.join(MC, "tsan.c"), "-o", ts] + ENGINE_FLAGS + ["-w", "-fno-pie", "-I" + MC])
        with ThreadPoolExecutor(NCPU) as ex:
            for fut in [ex.submit(f) for f in todo.values()]:
                fut.result()

    def link(self, spec, name):
        var = self.variant(spec)
        exe = os.path.join(self.dir, name)
        if spec.get("script"):
            # the explorer is a program of its own, with the same interface
            script, sdir = os.path.join(HERE, "harness", spec["script"]), os.path.join(self.dir, "script")
            if not os.path.isdir(sdir):
                run([sys.executable, script, "build", sdir, REPO])
            with open(exe, "w") as f:
                f.write('#!/bin/sh\nexec %s %s %s %s "$@"\n' % (sys.executable, script, sdir, REPO))
            os.chmod(exe, 0o755)
            return exe
        objs = [self.objname("!" + os.path.join(HERE, "harness", h), var) for h in spec["harness"]]
        if spec.get("logstub", True):
            objs.append(self.objname("!" + os.path.join(MC, "log_stub.c"), var))
        srcs = repo_sources(spec["dirs"]) + spec.get("extra", [])
        direct = [s for s in srcs if s in spec.get("objs", [])]
        ar = exe + ".a"
        exclude = spec.get("exclude", [])
        run(["ar", "rcs", ar] + [self.objname(s, var) for s in srcs if s not in direct and s not in exclude])
        cmd = ["g++", "-no-pie", "-Wl,-z,now", "-Wl,-z,muldefs", "-Wl,-z,noexecstack", "-rdynamic", "-o", exe] + objs + \
              ([os.path.join(self.dir, "tsan.o")] if var[2] else []) + \
              [os.path.join(self.dir, "mc.o")] + [self.objname(s, var) for s in direct] + \
              [ar, os.path.join(self.dir, "stubs.o"), ar]
        cmd += ["-fsanitize=address", "-lm"]
        run(cmd)
        return exe


def known_findings(pid):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def run_mc(exe, params, known, extra=(), timeout=None):
    out = exe + ".%s.json" % hashlib.md5(repr((sorted(params.items()), tuple(extra))).encode()).hexdigest()[:12]
    cmd = [exe] + ["%s=%s" % kv for kv in sorted(params.items())] + ["out=" + out] + list(extra)
    if known:
        cmd.append("known=" + ",".join(sorted(known)))
    env = dict(os.environ)
    env.pop("MC_NOREEXEC", None)
    env["ASAN_OPTIONS"] = ""
    try:
        if os.path.exists(out):
            os.unlink(out)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, stdin=subprocess.DEVNULL)
        rc, txt = p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, txt = 99, (e.stdout or b"").decode("utf8", "replace") + "\nTIMEOUT"
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            pass
        os.unlink(out)
    return rc, txt, res


_serial = __import__("itertools").count()


def replay_args(exe, choices):
    f = exe + ".replay.%d" % next(_serial)
    with open(f, "w") as fh:
        fh.write(",".join(map(str, choices)))
    return f


def expand(check, tier):
    """list of (job name, spec, params, max_s)"""
    jobs = []
    for j in check["jobs"]:
        if tier not in j.get("tiers", ("quick", "thorough")):
            continue
        grid = [{}]
        for k, v in list(j.get("params", {}).items()) + list(j.get(tier, {}).items()):
            if k == "max_s":
                continue
            vals = v if isinstance(v, list) else [v]
            for g in grid:
                g.pop(k, None)
            grid = [dict(g, **{k: x}) for g in {json.dumps(g, sort_keys=True): g for g in grid}.values() for x in vals]
        max_s = j.get(tier, {}).get("max_s", 60 if tier == "quick" else 600)
        for g in grid:
            jobs.append((j["name"], j, g, max_s))
    return jobs


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("VERIF_JOB")
    check = CHECKS[pid]
    t0 = time.time()
    known = known_findings(pid)
    b = Build(os.path.join(HERE, ".build", pid))
    jobs = expand(check, tier)
    if only:
        jobs = [j for j in jobs if j[0] == only]
    specs = {}
    for name, spec, _, _ in jobs:
        specs[name] = spec
    try:
        b.prepare(list(specs.values()))
        exes = {n: b.link(s, n) for n, s in specs.items()}
    except BuildError as e:
        print("ERROR: cannot build the checked code:\n%s" % e)
        return 2
    tb = time.time() - t0
    results = []
    validated = [0]

    found = [False]
    deadline = t0 + (420 if tier == "quick" else 6 * 3600)

    def one(job):
        name, spec, params, max_s = job
        if found[0]:
            return job, 97, "", None     # a violation was found elsewhere
        max_s = max(5, min(max_s, deadline - time.time()))
        p = dict(params, max_s=max_s)
        rc, txt, res = run_mc(exes[name], p, known, timeout=max_s + 120)
        if rc == 0 and res and res["status"] == "ok":
            nv = 0
            for tr in res["traces"][:spec.get("validate", 6)] if tier == "quick" else res["traces"]:
                f = replay_args(exes[name], tr["choices"])
                rc2, txt2, r2 = run_mc(exes[name], params, known, ["replay=@" + f], timeout=120)
                os.unlink(f)
                if rc2 != 0 or not r2 or r2["obs"] != tr["obs"]:
                    return job, 98, "trace validation failed: " + txt2[-500:], res
                nv += 1
            res["validated"] = nv
        if res and res["status"] == "violation":
            found[0] = True
        return job, rc, txt, res

    # long jobs first
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][1].get("cost", 0))
    with ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(one, jobs[i]) for i in order]
        results = [f.result() for f in futs]

    code = 0
    viol = 0
    known_hit = set()
    tot = dict(states=0, transitions=0, executions=0, revisits=0, pruned=0, evals=0, evals_nontrivial=0, outcomes=0)
    samples, perjob = [], []
    exhaustive = True
    rdir = os.path.join(HERE, "replays")
    for (name, spec, params, max_s), rc, txt, res in results:
        if rc == 97:
            exhaustive = False
            continue
        if res is None or rc not in (0, 1):
            # an error of the checker: once more, alone
            rc, txt, res = run_mc(exes[name], dict(params, max_s=max_s), known, timeout=max_s + 300)
            if rc == 98 or res is None or rc not in (0, 1):
                print("ERROR: job %s %s: exit %s\n%s" % (name, params, rc, txt[-3000:]))
                code = code or 2
                continue
        for k in tot:
            tot[k] += res[k]
        known_hit.update(res["known"])
        if res["status"] == "violation":
            f = replay_args(exes[name], res["path"])
            oks = 0
            for _ in range(2):
                rc2, _, r2 = run_mc(exes[name], params, known, ["replay=@" + f], timeout=180)
                if r2 and r2["status"] == "violation":
                    oks += 1
            os.unlink(f)
            if oks != 2:
                print("ERROR: job %s %s: violation '%s' is not reproducible" % (name, params, res["message"]))
                code = code or 2
                continue
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-%s.json" % (pid, name, hashlib.md5(json.dumps(params, sort_keys=True).encode()).hexdigest()[:6]))
            with open(path, "w") as fh:
                json.dump(dict(property=pid, job=name, params=params, choices=res["path"],
                               message=res["message"], report=res["report"]), fh, indent=1)
            print("job %s %s: %s" % (name, params, res["message"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            viol += 1
            code = 1
            continue
        validated[0] += res.get("validated", 0)
        exhaustive = exhaustive and res["complete"]
        if not res["complete"]:
            print("note: job %s %s: stopped by its limit after %.0f s, %d states" % (name, params, res["wall_s"], res["states"]))
        vac = spec.get("min_executions", 1)
        if res["executions"] < vac:
            print("ERROR: job %s %s is vacuous: %d executions" % (name, params, res["executions"]))
            code = code or 2
        # behaviours that the unchanged tree shows have to be possible: a tree on which most of them cannot be reached
        # (because every execution ends early, for instance) does not pass
        floor = FLOORS.get(pid, {}).get(floor_key(name, params))
        if floor and res["complete"] and (2 * res["outcomes"] < floor[0] or (floor[1] and not res["evals"])):
            spec = dict(spec, min_outcomes=max(floor[0], res["outcomes"] + 1))
        if res["complete"] and res["outcomes"] < spec.get("min_outcomes", 0):
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-outcomes.json" % (pid, name))
            with open(path, "w") as fh:
                json.dump(dict(property=pid, job=name, params=params, choices=None,
                               message="only %d of %d outcomes are possible" % (res["outcomes"], spec["min_outcomes"]), report=""), fh)
            print("job %s %s: only %d of the %d outcomes that have to be possible are" % (name, params, res["outcomes"], spec["min_outcomes"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            viol += 1
            code = 1
            continue
        samples += [{"job": name, "params": params, "case": s} for s in res["samples"]]
        perjob.append(dict(job=name, params=params, states=res["states"], transitions=res["transitions"],
                           executions=res["executions"], outcomes=res["outcomes"], max_depth=res["max_depth"],
                           complete=res["complete"], wall_s=round(res["wall_s"], 2), evals=res["evals"],
                           choice_points=res["choice_labels"]))
        if not res["samples"] and res["traces"]:
            tr = res["traces"][-1]
            samples.append({"job": name, "params": params, "schedule": tr["choices"][:400], "observation": tr["obs"]})
    if viol:
        code = 1
    for k, d in sorted(known.items()):
        if code == 0 and k in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, d))
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=validated[0],
               executions=tot["executions"], distinct_outcomes=tot["outcomes"], states_revisited=tot["revisits"],
               evaluations=tot["evals"] or tot["executions"], jobs=perjob, exhaustive=exhaustive,
               samples=samples[:40], bounds=check.get("bounds", ""),
               explored="real compiled code of the working tree in every explored state")
    if tot["evals"]:
        cov["distinct_nontrivial"] = tot["evals_nontrivial"]
        cov["rule"] = check.get("rule", "")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                       assumptions=check.get("assumptions", []), wall_s=round(time.time() - t0, 2),
                       violations=viol), f, indent=1)
    shutil.rmtree(b.dir, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
    print("%s %s: %d states, %d transitions, %d executions, %d outcomes, %d traces validated, %s, build %.1f s, total %.1f s" %
          (pid, tier, tot["states"], tot["transitions"], tot["executions"], tot["outcomes"], validated[0],
           "exhaustive" if exhaustive else "bounded by time", tb, time.time() - t0))
    return code


def do_replay(path):
    r = json.load(open(path))
    check = CHECKS[r["property"]]
    spec = [j for j in check["jobs"] if j["name"] == r["job"]][0]
    b = Build(os.path.join(HERE, ".build", "replay-" + r["property"]))
    b.prepare([spec])
    exe = b.link(spec, r["job"])
    if r["choices"] is None:
        rc, txt, res = run_mc(exe, r["params"], known_findings(r["property"]), timeout=600)
        print("%s\n%d outcomes" % (r["message"], res["outcomes"]))
        shutil.rmtree(b.dir, ignore_errors=True)
        return 1
    f = replay_args(exe, r["choices"])
    rc, txt, res = run_mc(exe, r["params"], known_findings(r["property"]), ["replay=@" + f, "verbose=1"], timeout=300)
    print(txt)
    if res and res["report"]:
        print(res["report"])
    shutil.rmtree(b.dir, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
