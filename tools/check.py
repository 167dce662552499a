#!/usr/bin/env python3
"""check.py ID [quick|thorough]    decide one property on /repo's working tree
   check.py replay FILE            run a replay file again (exit 1 when the property still fails)

Exit 0: held on everything generated.  Exit 1: a line "VIOLATION property=ID replay=PATH".  Exit 2: no answer."""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import build as bld
import crossbuild

VERIF = bld.VERIF
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
PYBIN = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
# the interpreter itself: what python3-vt names may be a shell script, and a shell does not run with TSan loaded
PYBIN = subprocess.run([PYBIN, "-c", "import sys; print(sys.executable)"], capture_output=True, text=True).stdout.strip() or PYBIN
WORKERS = os.cpu_count() or 8

# property: [(flavour, quick cases, thorough cases)], libFuzzer seconds (quick, thorough)
K = 1000
CPP = {
    "C01": ([("asan", 1200 * K, 30000 * K), ("rel", 3500 * K, 120000 * K)], (0, 120)),
    "C02": ([("asan", 250 * K, 8000 * K), ("rel", 900 * K, 30000 * K)], (0, 120)),
    "C03": ([("asan", 700 * K, 15000 * K), ("rel", 2500 * K, 60000 * K)], (0, 180)),
    "C04": ([("asan", 1200 * K, 20000 * K), ("rel", 3000 * K, 60000 * K)], (0, 120)),
    "C05": ([("asan", 200 * K, 5000 * K), ("rel", 500 * K, 18000 * K)], (0, 180)),
    "C06": ([("asan", 800 * K, 15000 * K), ("rel", 2500 * K, 60000 * K)], (0, 180)),
    "C07": ([("asan", 2000 * K, 40000 * K), ("rel", 5000 * K, 150000 * K)], (0, 120)),
    "C08": ([("asan", 1400 * K, 30000 * K), ("rel", 4000 * K, 120000 * K)], (0, 120)),
    "C09": ([("asan", 2500 * K, 50000 * K), ("rel", 6000 * K, 150000 * K)], (0, 120)),
    "C10": ([("asan", 350 * K, 12000 * K), ("rel", 1000 * K, 40000 * K)], (0, 180)),
    "C11": ([("asan", 1500 * K, 40000 * K), ("rel", 4000 * K, 150000 * K)], (0, 120)),
    "C12": ([("asan", 2000 * K, 40000 * K), ("rel", 5000 * K, 150000 * K)], (0, 120)),
    "C13": ([("asan", 2000 * K, 40000 * K), ("rel", 6000 * K, 200000 * K)], (0, 120)),
    "C14": ([("asan", 1500 * K, 30000 * K), ("rel", 4000 * K, 120000 * K)], (0, 60)),
    "C15": ([("asan", 2000 * K, 50000 * K), ("rel", 6000 * K, 200000 * K)], (0, 60)),
    "C16": ([("asan", 2000 * K, 50000 * K), ("rel", 6000 * K, 200000 * K)], (0, 60)),
    "C17": ([("asan", 200 * K, 5000 * K), ("rel", 600 * K, 20000 * K)], (0, 240)),
    "C18": ([("asan", 1500 * K, 30000 * K), ("rel", 4000 * K, 120000 * K)], (0, 60)),
    "C19": ([("ubsan", 250 * K, 8000 * K)], (12, 420)),
    "C20": ([("fault", 700 * K, 12000 * K), ("fault-cold", 20 * K, 300 * K)], (0, 0)),
    "C29": ([("effects", 600 * K, 12000 * K)], (0, 0)),
    "C28": ([("cost", 400 * K, 6000 * K)], (0, 0)),
    "C21": ([("tsan", 16 * K, 500 * K), ("stress", 40 * K, 400 * K)], (0, 0)),
}
HUGE = {"C09": 6}  # cases of the property named ...huge, one at a time, thorough tier only
CHUNK = {"C21": 40}  # cases per process: what happens on the first use in a process has to happen often
WALL = {"quick": 90, "thorough": 330}
PY = {  # property: [(flavour, quick examples, thorough examples) per worker]
    "C23": [("py", 6000, 60000)],
    "C24": [("py", 3600, 30000)],
    "C25": [("py", 3300, 30000), ("py-asan", 600, 10000)],
    "C26": [("py", 4200, 40000)],
    "C27": [("py", 2400, 24000), ("py-tsan", 1200, 9000)],
    "C30": [("py", 2000, 20000)],
}
ASSUME = {
    "cpp": ["GMP, the compilers and the C++ standard library are correct", "the generated sizes and weights are as described in DESIGN.md; values far beyond them are not reached"],
    "py": ["CPython's int is correct", "the generated sizes are as described in DESIGN.md"],
}


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Result:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.parts, self.samples, self.notes, self.rule, self.violation, self.replay = [], [], [], "", None, None

    def add(self, name, evals, nontrivial, distinct, **more):
        self.parts.append(dict(run=name, evaluations=evals, nontrivial=nontrivial, distinct_nontrivial=distinct, **more))

    def finish(self, kind):
        os.makedirs(EVID, exist_ok=True)
        cov = {
            "evaluations": sum(p["evaluations"] for p in self.parts),
            # distinct within the run that has most of them: the runs are not assumed to be disjoint
            "distinct_nontrivial": max([p["distinct_nontrivial"] for p in self.parts] or [0]),
            "rule": self.rule, "samples": self.samples[:12] or ["(no case was generated)"], "runs": self.parts,
        }
        if self.notes:
            cov["unconfirmed"] = self.notes[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": seed(), "level": "exploration", "coverage": cov, "assumptions": ASSUME[kind],
              "wall_s": round(time.time() - self.t0, 2), "violations": 1 if self.violation else 0}
        path = os.path.join(EVID, self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        print(f"{self.prop} {self.tier}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s")
        for n in self.notes[:5]:
            print("not reproduced, so not reported:", n[:400])
        if self.violation:
            print("failed:", self.violation[:2500])
            print(f"VIOLATION property={self.prop} replay={self.replay}")
            return 1
        return 0


def sh(cmd, timeout, **kw):
    """Runs in its own process group, killed as a whole on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=kw.pop("stderr", subprocess.DEVNULL), text=True, start_new_session=True, errors="replace", **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, ""
    return p.returncode, out


def confirm(exe, replay):
    rc, _ = sh([exe, "replay", replay, "--quiet", "1"], 300)
    return rc == 1


def run_flavour(res, exe, flavour, cases, sd, wall, tmp, prop=None, workers=WORKERS):
    out = os.path.join(tmp, flavour + ".json")
    rc, _ = sh([exe, "run", "--prop", prop or res.prop, "--cases", str(cases), "--seed", str(sd), "--wall", str(wall), "--workers", str(workers), "--flavour", flavour,
                "--replay-dir", OUT, "--shrink", "1" if prop else "30", "--out", out, "--tmp", os.path.join(tmp, "w")] + (["--chunk", "1"] if flavour in ("stress", "fault-cold") else ["--chunk", str(CHUNK[res.prop])] if res.prop in CHUNK else []), wall + 300)
    try:
        with open(out) as f:
            d = json.load(f)
    except (OSError, ValueError):
        raise RuntimeError(f"the {flavour} harness gave no result (status {rc})") from None
    res.rule = res.rule or d["rule"]
    res.add(prop or flavour, d["evaluations"], d["nontrivial"], d["distinct_nontrivial"], seed=sd, cases_planned=cases, wall_s=round(d["wall_s"], 2), labels=d["labels"])
    res.samples += d["samples"][:6]
    res.notes += [f"{flavour}: {u}" for u in d["unconfirmed"]]
    if d["violation"]:
        if confirm(exe, d["replay"]):
            res.violation, res.replay = d["violation"], d["replay"]
        else:
            res.notes.append(f"{flavour}: {d['violation']}")


def run_fuzz(res, exes, secs, sd, tmp):
    """Coverage-guided search over the same choice sequences."""
    fz, conf = exes["fuzz"], exes["ubsan"]
    procs = []
    for w in range(WORKERS):
        d = os.path.join(tmp, f"fz{w}")
        os.makedirs(d + "/corpus")
        os.makedirs(d + "/art")
        sh([conf, "corpus", d + "/corpus", "--prop", res.prop, "--cases", "120", "--seed", str(sd * 1000 + w)], 120)
        env = dict(os.environ, PBT_PROP=res.prop, PBT_HASHES=d + "/hashes")
        with open(d + "/log", "wb") as lf:
            procs.append((d, subprocess.Popen([fz, f"-max_total_time={secs}", f"-seed={sd * 100 + w + 1}", "-max_len=3000", "-timeout=20", "-rss_limit_mb=3500", "-len_control=20",
                                              "-use_value_profile=1" if w % 2 else "-use_value_profile=0", "-print_final_stats=1", f"-artifact_prefix={d}/art/", d + "/corpus"],
                                             stdout=lf, stderr=lf, env=env, start_new_session=True)))
    end = time.time() + secs + 60
    for d, p in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    evals = nontriv = 0
    distinct = set()
    cov = []
    for d, p in procs:
        with open(d + "/log", errors="replace") as f:
            text = f.read()
        import re
        m = re.findall(r"PBT-STATS evals=(\d+) nontrivial=(\d+)", text)
        if m:
            evals += int(m[-1][0])
            nontriv += int(m[-1][1])
        else:
            m = re.findall(r"^#(\d+)", text, re.M)
            evals += int(m[-1]) if m else 0
        cov += [int(x) for x in re.findall(r"cov: (\d+)", text)[-1:]]
        try:
            with open(d + "/hashes", "rb") as f:
                raw = f.read(8 * 3000000)
            distinct.update(raw[i:i + 8] for i in range(0, len(raw) - 7, 8))
        except OSError:
            pass
        for a in sorted(os.listdir(d + "/art")):
            if res.violation or a.startswith("slow-unit"):
                continue
            rc, out = sh([conf, "conclude", f"{d}/art/{a}", "--prop", res.prop, "--flavour", "ubsan", "--replay-dir", OUT, "--shrink", "40"], 300)
            if rc == 1 and out.startswith("replay="):
                path, _, msg = out[7:].partition("\n")
                if confirm(conf, path):
                    res.violation, res.replay = msg.strip(), path
                    continue
            res.notes.append(f"fuzz: {a} did not fail again")
    res.add("libFuzzer", evals, nontriv, len(distinct), seed=sd, wall_s=secs, edges_covered=max(cov or [0]))


def cpp_check(res):
    plan, fz = CPP[res.prop]
    q = res.tier == "quick"
    secs = fz[0 if q else 1]
    exes = bld.build([f for f, _, _ in plan] + (["fuzz", "ubsan"] if secs else []))
    os.makedirs(OUT, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="pbt-")
    try:
        for i, (f, cq, ct) in enumerate(plan):
            run_flavour(res, exes[f], f, cq if q else ct, seed() * 10 + i, WALL[res.tier], tmp, workers=3 if f == "stress" else WORKERS)
            if res.violation:
                return res.finish("cpp")
        if res.prop in HUGE and not q:
            run_flavour(res, exes["rel"], "rel", HUGE[res.prop], seed(), WALL[res.tier], tmp, res.prop + "huge", 1)
            if res.violation:
                return res.finish("cpp")
        if secs:
            run_fuzz(res, exes, secs, seed(), tmp)
        return res.finish("cpp")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def py_env(flavour, path):
    env = dict(os.environ, PYTHONPATH=path, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    if flavour == "py-asan":
        libs = [subprocess.run(["g++", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip() for n in ("libasan.so", "libubsan.so")]
        env.update(LD_PRELOAD=" ".join(libs), ASAN_OPTIONS="detect_leaks=0:exitcode=77:handle_segv=1:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=77")
    if flavour == "py-tsan":
        lib = subprocess.run(["g++", "-print-file-name=libtsan.so"], capture_output=True, text=True).stdout.strip()
        env.update(LD_PRELOAD=lib, TSAN_OPTIONS="halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0")
    return env


def py_replay(flavour, path, replay):
    rc, out = sh([PYBIN, os.path.join(VERIF, "py", "run.py"), "replay", replay], 120, env=py_env(flavour, path))
    return rc == 1, out


def py_conclude(res, flavour, path, case, msg, history=()):
    """Confirms a failure from its own case; if that holds on its own, from the cases before it in the same process."""
    def write(what):
        name = os.path.join(OUT, f"{res.prop}-{flavour}-{hashlib.sha256(json.dumps(what).encode()).hexdigest()[:16]}.json")
        with open(name, "w") as f:
            json.dump(dict(what, property=res.prop, flavour=flavour, outcome=msg), f)
        return name

    def fails(what, times=1):
        name = write(what)
        if all(py_replay(flavour, path, name)[0] for _ in range(times)):
            return name
        os.remove(name)
        return None

    name = fails({"case": case}, 3)
    if name:
        res.violation, res.replay = f"{msg} | case: {json.dumps(case)[:1500]}", name
        return True
    history = [json.loads(h) for h in history]
    n = 2
    while n < 2 * len(history):
        seq = history[-n:]
        if fails({"cases": seq}):
            end, step = time.time() + 60, max(1, (len(seq) - 1) // 2)
            while step and time.time() < end:  # leave out cases while it still fails
                i = 0
                while i < len(seq) - 1 and time.time() < end:
                    less = seq[:i] + seq[min(i + step, len(seq) - 1):]
                    name = fails({"cases": less})
                    if name:
                        seq = less
                    else:
                        i += step
                step //= 2
            name = fails({"cases": seq}, 3)
            if name:
                res.violation, res.replay = f"{msg} | after {len(seq) - 1} earlier cases: {json.dumps(seq)[:1500]}", name
                return True
        n *= 4
    res.notes.append(f"{flavour}: {msg[:300]} | {json.dumps(case)[:600]}")
    return False


def py_check(res):
    os.makedirs(OUT, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="pbt-")
    script = os.path.join(VERIF, "py", "run.py")
    try:
        for i, (flavour, nq, nt) in enumerate(PY[res.prop]):
            path = bld.build_py(flavour)
            n = nq if res.tier == "quick" else nt
            wall = WALL[res.tier]
            procs = []
            t0 = time.time()
            for w in range(WORKERS):
                out = os.path.join(tmp, f"{flavour}.{w}")
                cmd = [PYBIN, script, "run", res.prop, "--seed", str(seed() * 1000 + i * 100 + w), "--examples", str(n), "--wall", str(wall), "--out", out, "--shard", str(w), "--shards", str(WORKERS)]
                with open(out + ".log", "wb") as lf:
                    procs.append((w, out, cmd, subprocess.Popen(cmd, env=py_env(flavour, path), stdout=lf, stderr=lf, start_new_session=True)))
            evals = nontriv = 0
            distinct = set()
            end = time.time() + wall + 240
            broken = []
            for w, out, cmd, p in procs:
                try:
                    p.wait(max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
            for w, out, cmd, p in procs:
                if os.path.exists(out):
                    with open(out) as f:
                        d = json.load(f)
                    evals += d["evaluations"]
                    nontriv += d["nontrivial"]
                    distinct.update(d["distinct"])
                    res.rule = d["rule"]
                    res.samples += d["samples"][:2]
                    if d["failed"] and not res.violation:
                        py_conclude(res, flavour, path, json.loads(d["case"]), d["msg"], d.get("history", ()))
                else:
                    broken.append((w, out, cmd, p.returncode))
            for w, out, cmd, rc in broken:
                if res.violation:
                    break
                with open(out + ".log", errors="replace") as f:
                    tail = f.read()[-1500:]
                # the interpreter died: look for the case again, every case in a child of its own
                sh(cmd + ["--fork", "1"], 300, env=py_env(flavour, path))
                if os.path.exists(out):
                    with open(out) as f:
                        d = json.load(f)
                    res.rule = d["rule"]
                    if d["failed"] and py_conclude(res, flavour, path, json.loads(d["case"]), d["msg"]):
                        break
                try:
                    with open(out + ".case", "rb") as f:
                        case = json.loads(f.read().split(b"\0")[0].decode() or "null")
                except (OSError, ValueError):
                    case = None
                if case is None:
                    raise RuntimeError(f"a worker ended with status {rc}: {tail}")
                trace = out + ".trace"
                sh(cmd + ["--trace", trace], wall + 60, env=py_env(flavour, path))
                with open(trace) as f:
                    history = [ln for ln in f.read().split("\n")[:-1]][-400:]
                py_conclude(res, flavour, path, case, f"the interpreter ended with status {rc}", history)
            if not evals and not res.violation:
                raise RuntimeError(f"{flavour}: no case was evaluated: {res.notes[:1]}")
            res.add(flavour, evals, nontriv, len(distinct), workers=WORKERS, examples_per_worker=n, wall_s=round(time.time() - t0, 2))
            if res.violation:
                break
        return res.finish("py")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    with open(path) as f:
        text = f.read()
    if text.startswith("{"):
        r = json.loads(text)
        if r.get("kind") == "crossbuild":
            return crossbuild.replay(r)
        bad, out = py_replay(r["flavour"], bld.build_py(r["flavour"]), path)
        print(out)
        return 1 if bad else 0
    flavour = next(l.split(": ", 1)[1] for l in text.splitlines() if l.startswith("flavour: "))
    exe = bld.build([flavour])[flavour]
    return subprocess.run([exe, "replay", path]).returncode


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    res = Result(prop, tier)
    try:
        if prop in CPP:
            return cpp_check(res)
        if prop in PY:
            return py_check(res)
        if prop == "C22":
            crossbuild.check(res, seed(), WORKERS)
            return res.finish("cpp")
    except bld.BuildError as e:
        log("build failed:", str(e)[:6000])
        return 2
    except RuntimeError as e:
        log("no answer:", e)
        return 2
    log("unknown property", prop)
    return 2


if __name__ == "__main__":
    os.chdir(VERIF)
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    sys.exit(main())
