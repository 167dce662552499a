"""run.py run PROP --seed N --examples N --wall S --replay-dir D --out FILE [--fork 1] | replay FILE
Runs in the interpreter that can import both hypothesis and the freshly built pybiginteger (on PYTHONPATH)."""
import collections
import faulthandler
import hashlib
import json
import mmap
import os
import signal
import sys
import time

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

import props

LIMIT = 20  # seconds per case


def plain(o):
    """JSON has no bytes, and Python refuses to print very long integers in decimal."""
    if isinstance(o, bytes):
        return {"hex": o.hex()}
    if isinstance(o, int) and not isinstance(o, bool) and abs(o) >= 1 << 256:
        return {"int": hex(o)}
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    return o


def enc(c):
    return json.dumps(plain(c))


def dec(t):
    def hook(o):
        return bytes.fromhex(o["hex"]) if set(o) == {"hex"} else int(o["int"], 16) if set(o) == {"int"} else o
    return json.loads(t, object_hook=hook)


class Crash(Exception):
    pass


def in_child(check, *cases):
    """Runs the cases in one child, so that a crash or a hang is an ordinary failure."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 2)
            for case in cases:
                signal.alarm(LIMIT)
                check(case)
        except props.Bad as e:
            os.write(w, str(e)[:3000].encode())
            code = 3
        except BaseException as e:  # noqa: BLE001
            os.write(w, f"unexpected {type(e).__name__}: {e}"[:3000].encode())
            code = 3
        os._exit(code)
    os.close(w)
    msg = b""
    while True:
        chunk = os.read(r, 65536)
        if not chunk:
            break
        msg += chunk
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "the interpreter was ended by " + signal.Signals(os.WTERMSIG(st)).name
    code = os.WEXITSTATUS(st)
    if code == 3:
        return msg.decode(errors="replace")
    return "" if code == 0 else f"the interpreter ended with status {code}"


def run(prop, a):
    strategy, check, nontrivial, rule = props.PROPS[prop]
    t0 = time.time()
    stats = {"evaluations": 0, "nontrivial": 0}
    distinct = set()
    samples = []
    last = {}
    history = collections.deque(maxlen=400)  # what a case does may depend on the cases before it
    trace = open(a["trace"], "w") if "trace" in a else None
    fork = a.get("fork") == "1"
    shared = open(a["out"] + ".case", "w+b")
    shared.truncate(1 << 20)
    mm = mmap.mmap(shared.fileno(), 1 << 20)
    deadline = t0 + float(a.get("wall", "60"))

    # Hypothesis uses its seed through the decorator below
    def test(case):
        if time.time() > deadline and not last:
            return
        text = enc(case).encode()[: (1 << 20) - 1]
        mm[: len(text) + 1] = text + b"\0"
        history.append(enc(case))
        if trace:
            trace.write(history[-1] + "\n")
            trace.flush()
        stats["evaluations"] += 1
        if nontrivial(case):
            stats["nontrivial"] += 1
            distinct.add(hashlib.blake2b(text, digest_size=8).digest())
            if len(samples) < 3 and stats["nontrivial"] % 40 == 3 and len(text) < 700:
                samples.append(text.decode())
        if fork:
            m = in_child(check, case)
            if m:
                last["case"], last["msg"] = enc(case), m
                raise Crash(m)
            return
        signal.alarm(LIMIT)
        try:
            check(case)
        except props.Bad as e:
            last["case"], last["msg"], last["history"] = enc(case), str(e), list(history)
            raise
        except Exception as e:  # noqa: BLE001 - an exception nobody asked for is a failure
            last["case"], last["msg"], last["history"] = enc(case), f"unexpected {type(e).__name__}: {e}", list(history)
            raise props.Bad(last["msg"]) from None
        finally:
            signal.alarm(0)

    t = given(strategy())(test)
    t = settings(max_examples=int(a["examples"]), database=None, deadline=None, suppress_health_check=list(HealthCheck),
                 phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)(t)
    t = hypothesis.seed(int(a["seed"]))(t)
    failed = False
    try:
        for case in props.grid(prop, int(a["seed"]), int(a.get("shard", "0")), int(a.get("shards", "1"))):
            test(case)
        t()
    except hypothesis.errors.Flaky:
        failed = bool(last)
    except (props.Bad, Crash):
        failed = True
    except BaseException as e:  # noqa: BLE001
        if not last:
            raise
        failed = True
    out = dict(stats, distinct=[d.hex() for d in distinct], samples=samples, rule=rule, wall_s=time.time() - t0, failed=failed, **last)
    with open(a["out"], "w") as f:
        json.dump(out, f)
    return 0


def main():
    mode, target = sys.argv[1], sys.argv[2]
    a = {sys.argv[i][2:]: sys.argv[i + 1] for i in range(3, len(sys.argv) - 1, 2)}
    if mode == "run":
        return run(target, a)
    if mode == "replay":
        with open(target) as f:
            r = json.load(f)
        cases = [dec(json.dumps(c)) for c in (r["cases"] if "cases" in r else [r["case"]])]
        check = props.PROPS[r["property"]][1]
        m = in_child((lambda c: check(c, 30)) if r["property"] == "C27" else check, *cases)  # threads: many attempts
        print(m or "held")
        return 1 if m else 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
