"""C22: the same generated cases give the same observable results in every build of the library."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import subprocess
import time

import build as bld

OUT = os.path.join(bld.VERIF, "out")
REF = "cfg-gcc-O2"
CONFIGS = [REF] + sorted(k for k in bld.FLAVOURS if k.startswith("cfg-") and k != REF)
SUB = ["C%02d" % i for i in range(1, 19)]
CASES = {"quick": {"C02": 4000, "C05": 3000, "C17": 3000}, "thorough": {"C02": 60000, "C05": 40000, "C17": 50000}}
DEFAULT = {"quick": 12000, "thorough": 200000}
RULE = ("a generated case of C01-C18, executed by one and the same harness linked against the library as built by each of %d configurations (%s; cfg-preinit runs everything from a static initialiser "
        "placed before the library); the outcome of every operation, including which exception was thrown, is digested and compared; counted as one evaluation per case and configuration, and as "
        "non-trivial by the rule of the underlying case") % (len(CONFIGS), ", ".join(c[4:] for c in CONFIGS))


def env_of(exe):
    """One configuration runs with every byte of fresh and freed memory set."""
    return dict(os.environ, MALLOC_PERTURB_="165") if "filled" in exe else None


def trace(exe, prop, sd, n):
    """[line per case]; a case that ends the process gives a line saying how."""
    lines = []
    pos = 0
    while pos < n:
        p = subprocess.run([exe, "trace", "--prop", prop, "--seed", str(sd), "--from", str(pos), "--cases", str(n - pos)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=env_of(exe))
        got = p.stdout.split("\n")
        if got and got[-1] != "":
            got = got[:-1]  # cut off in the middle
        got = [g for g in got if g]
        lines += [" ".join(g.split(" ")[1:2] + g.split(" ")[3:]) + "\0" + " ".join(g.split(" ")[2:4]) for g in got]
        pos += len(got)
        if pos < n:
            lines.append(f"ended {p.returncode}\0")
            pos += 1
            if sum(l.startswith("ended") for l in lines) > 20:
                lines += ["skipped\0"] * (n - pos)
                break
    return lines


def answer(exe, prop, hexes, describe=False):
    p = subprocess.run([exe, "serve", "--prop", prop] + (["--describe", "1"] if describe else []), input="".join(h + "\n" for h in hexes), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=env_of(exe))
    return [l.split(" ", 1)[1] if " " in l else l for l in p.stdout.split("\n") if l] or ["no answer"]


def differs(a, b, prop, h):
    return answer(a, prop, [h])[0] != answer(b, prop, [h])[0]


def shrink(a, b, prop, h, budget=40):
    end = time.time() + budget
    best = bytes.fromhex(h)
    progress = True
    while progress and time.time() < end:
        progress = False
        cand = []
        for size in (len(best) // 2, len(best) // 4, 32, 16, 8, 4, 2, 1):
            if size:
                cand += [best[:i] + best[i + size:] for i in range(len(best) - size, -1, -max(1, size // 2))]
        cand += [best[:i] + b"\0" + best[i + 1:] for i in range(len(best)) if best[i]]
        cand += [best[:i] + bytes([best[i] // 2]) + best[i + 1:] for i in range(len(best)) if best[i] > 1]
        for i in range(0, len(cand), 64):
            if time.time() > end:
                break
            part = [c.hex() for c in cand[i:i + 64]]
            x, y = answer(a, prop, part), answer(b, prop, part)
            hit = next((c for c, u, v in zip(part, x, y) if u != v), None)
            if hit is not None:
                best = bytes.fromhex(hit)
                progress = True
                break
    while best.endswith(b"\0") and differs(a, b, prop, best[:-1].hex()):
        best = best[:-1]
    return best.hex()


def check(res, sd, workers):
    exes = bld.build(CONFIGS)
    os.makedirs(OUT, exist_ok=True)
    res.rule = RULE
    jobs = {}
    with cf.ThreadPoolExecutor(workers) as ex:
        for p in sorted(SUB, key=lambda p: p not in ("C02", "C05", "C10", "C17")):
            n = CASES[res.tier].get(p, DEFAULT[res.tier])
            for c in CONFIGS:
                jobs[p, c] = ex.submit(trace, exes[c], p, sd, n)
    distinct = set()
    evals = nontriv = 0
    bad = []
    for p in SUB:
        ref = jobs[p, REF].result()
        hashes = [l.split("\0")[1] for l in ref]
        evals += len(ref) * len(CONFIGS)
        k = [p + h for h in hashes if h.endswith(" 1")]
        nontriv += len(k)
        distinct.update(k)
        for c in CONFIGS[1:]:
            got = jobs[p, c].result()
            for i, (u, v) in enumerate(zip(ref, got)):
                if u.split("\0")[0] != v.split("\0")[0] and "skipped" not in (u[:7], v[:7]):
                    bad.append((p, c, i))
    rnd = random.Random(sd)
    for p in rnd.sample(SUB, 4):
        h = subprocess.run([exes[REF], "choices", "--prop", p, "--seed", str(sd), "--from", str(rnd.randrange(1000))], stdout=subprocess.PIPE, text=True).stdout.strip()
        res.samples.append(p + " " + answer(exes[REF], p, [h], True)[0][:500])
    res.add("all configurations", evals, nontriv, len(distinct), configurations=[c[4:] for c in CONFIGS], cases_compared=evals // len(CONFIGS), seed=sd)
    for p, c, i in bad[:30]:
        h = subprocess.run([exes[REF], "choices", "--prop", p, "--seed", str(sd), "--from", str(i)], stdout=subprocess.PIPE, text=True).stdout.strip()
        if not differs(exes[REF], exes[c], p, h):
            res.notes.append(f"{p} case {i}: {c} differed from {REF} once")
            continue
        h = shrink(exes[REF], exes[c], p, h)
        r = {"kind": "crossbuild", "property": "C22", "case_of": p, "configurations": [REF, c], "choices": h}
        if all(differs(exes[REF], exes[c], p, h) for _ in range(3)):
            x, y = answer(exes[REF], p, [h], True)[0], answer(exes[c], p, [h], True)[0]
            r["outcomes"] = {REF: x, c: y}
            res.replay = os.path.join(OUT, "C22-%s.json" % hashlib.sha256((p + c + h).encode()).hexdigest()[:16])
            with open(res.replay, "w") as f:
                json.dump(r, f, indent=1)
            res.violation = f"{p} case differs between builds: {REF}: {x[:900]} || {c}: {y[:900]}"
            return
        res.notes.append(f"{p} case {i}: difference with {c} did not survive confirmation")


def replay(r):
    a, b = r["configurations"]
    exes = bld.build([a, b])
    x, y = (answer(exes[k], r["case_of"], [r["choices"]], True)[0] for k in (a, b))
    print(f"{a}: {x}\n{b}: {y}")
    return 1 if differs(exes[a], exes[b], r["case_of"], r["choices"]) else 0
