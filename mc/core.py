"""Small explicit-state exploration framework shared by all checks.

A check module provides

    PROP       property id
    BOUND      text: alphabet, bound and oracle of the exploration
    cases(tier)            generator of JSON-able cases (the complete bounded space)
    run_case(case) -> Out  executes the case on the REAL code and on the reference model
    prepare()  (optional)  one-time warm up in the parent, before workers are forked

The framework enumerates every case (never a sample), shards them over processes, counts
distinct canonical states / transitions / executed traces, writes the evidence file, turns
disagreements into replay files and prints the verdict.
"""
import hashlib
import importlib
import io
import json
import math
import os
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.environ.get("VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO_ROOT", "/repo")
SRC = os.path.join(REPO, "src")
SCRATCH = os.environ.get("MC_SCRATCH") or os.environ.get("TMPDIR") or "/tmp"
CASE_TIMEOUT = 200
MAX_REPORTS = 25


class HarnessError(Exception):
    """Something is wrong with the check itself (never reported as a violation)."""


class CaseTimeout(BaseException):
    pass


class Out:
    """Result of executing one case."""

    def __init__(self):
        self.violations = []      # (key, message)
        self.states = set()       # hashes of canonical states visited
        self.transitions = 0
        self.traces = 1
        self.outcome = None       # short canonical outcome, for the distinct-outcome count

    def bad(self, key, msg):
        self.violations.append((str(key), str(msg)))

    def state(self, *obj):
        self.states.add(canon_hash(obj))

    def step(self, n=1):
        self.transitions += n


def rnd(x, nd=9):
    """canonical rounding of floats (relative), used only for state hashing"""
    if isinstance(x, complex):
        return (rnd(x.real, nd), rnd(x.imag, nd))
    if isinstance(x, float):
        if x != x or math.isinf(x):
            return str(x)
        if x == 0:
            return 0.0
        return float(f"%.{nd}g" % x)
    return x


def canon(o):
    if isinstance(o, dict):
        return tuple(sorted((str(k), canon(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return tuple(canon(x) for x in o)
    if isinstance(o, (set, frozenset)):
        return tuple(sorted(map(repr, (canon(x) for x in o))))
    if hasattr(o, "tolist"):
        return canon(o.tolist())
    return rnd(o)


def canon_hash(o):
    return int.from_bytes(hashlib.blake2b(repr(canon(o)).encode(), digest_size=8).digest(), "big")


def in_repo(tb_exc):
    """True when the innermost frame of the exception is in the code under test."""
    tb = tb_exc.__traceback__
    repo_hit = False
    verif_after = False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(SRC) or f.startswith("<lambdifygenerated"):
            repo_hit, verif_after = True, False
        elif f.startswith(VERIF):
            verif_after = True
        tb = tb.tb_next
    return repo_hit and not verif_after


def tb_text(e):
    return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-2000:]


def attempt(fn, *a, **k):
    """Call the code under test: ('ok', value) or ('err', text). Errors of the harness propagate."""
    try:
        return ("ok", fn(*a, **k))
    except (CaseTimeout, HarnessError, KeyboardInterrupt):
        raise
    except Exception as e:  # noqa
        # a TypeError raised by the call itself (signature change) has no frame in the repo
        if not in_repo(e):
            if isinstance(e, SystemExit):
                return ("err", "SystemExit")
            raise
        return ("err", f"{type(e).__name__}: {e}")
    except SystemExit as e:
        return ("err", f"SystemExit({e.code})")


class Mute:
    """Silence prints of the code under test (python level)."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e
        return False


_MOD = None


def _alarm(signum, frame):
    raise CaseTimeout()


def exec_case(mod, case):
    out = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT))
    try:
        with Mute():
            out = mod.run_case(case)
    except CaseTimeout:
        out = Out()
        out.bad("no-termination", "the case did not terminate within the time limit")
    except HarnessError:
        raise
    except Exception as e:
        if in_repo(e):
            out = Out()
            out.bad("unexpected-exception", f"{type(e).__name__}: {e}\n{tb_text(e)}")
        else:
            raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return out


def _work(chunk):
    idx0, cs = chunk
    res = []
    for i, c in enumerate(cs):
        try:
            o = exec_case(_MOD, c)
            res.append((idx0 + i, o.violations, o.states, o.transitions, o.traces, repr(canon(o.outcome))[:200], None))
        except BaseException as e:  # harness error: reported by the parent
            res.append((idx0 + i, [], set(), 0, 0, None, tb_text(e)))
            break
    return res


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {(f["property"], f["key"]): f["what"] for f in d.get("findings", [])}


def load_module(pid):
    d = os.path.join(os.path.dirname(__file__), "checks")
    for f in sorted(os.listdir(d)):
        if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
            return importlib.import_module("mc.checks." + f[:-3])
    raise HarnessError(f"no check module for {pid}")


def write_replay(pid, n, case, key, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{n}.json")
    with open(p, "w") as f:
        json.dump({"property": pid, "key": key, "message": msg, "case": case,
                   "how": f"bash check.sh --replay {p}"}, f, indent=1, default=str)
    return p


def main(pid):
    global _MOD
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for f in os.listdir(os.path.join(VERIF, "replays")) if os.path.isdir(os.path.join(VERIF, "replays")) else []:
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(VERIF, "replays", f))
    known = load_known()
    violations = []      # (idx, case, key, msg)
    found_known = {}
    harness_err = None
    ncases = 0
    states = set()
    transitions = 0
    traces = 0
    outcomes = Counter()
    samples = []
    cases = []
    try:
        mod = load_module(pid)
        _MOD = mod
        try:
            with Mute():
                if hasattr(mod, "prepare"):
                    mod.prepare()
                cases = list(mod.cases(tier))
        except Exception as e:
            if in_repo(e):
                violations.append((-1, {"prepare": True}, "prepare-failed",
                                   f"the code under test failed while the exploration was set up: {type(e).__name__}: {e}"))
                cases = []
            else:
                raise
        ncases = len(cases)
        nproc = min(getattr(mod, "NPROC", 8), os.cpu_count() or 1)
        import multiprocessing as mp
        ctx = mp.get_context("fork")
        cs = getattr(mod, "CHUNK", None) or max(1, min(64, ncases // (nproc * 8) or 1))
        chunks = [(i, cases[i:i + cs]) for i in range(0, ncases, cs)]

        def absorb(res):
            nonlocal transitions, traces, harness_err
            for (i, viol, st, tr, tc, oc, err) in res:
                if err:
                    harness_err = harness_err or f"case {i}: {cases[i]!r}\n{err}"
                    continue
                states.update(st)
                transitions += tr
                traces += tc
                outcomes[oc] += 1
                if i % max(1, ncases // 6) == 0 and len(samples) < 8:
                    samples.append({"case": cases[i], "outcome": oc})
                for key, msg in viol:
                    if (pid, key) in known:
                        found_known.setdefault(key, msg)
                    else:
                        violations.append((i, cases[i], key, msg))
            return len({v[2] for v in violations}) >= MAX_REPORTS or len(violations) > 400 or harness_err

        capped = False
        if nproc <= 1 or len(chunks) <= 1:
            for c in chunks:
                if absorb(_work(c)):
                    capped = True
                    break
        elif chunks:
            with ctx.Pool(nproc) as pool:
                for res in pool.imap_unordered(_work, chunks):
                    if absorb(res):
                        capped = True
                        pool.terminate()
                        break
        # own the nondeterminism: re-execute a spread of cases and require identical observations
        if not harness_err and not violations and ncases:
            for i in range(0, ncases, max(1, ncases // 5)):
                a, b = exec_case(mod, cases[i]), exec_case(mod, cases[i])
                if (a.violations, canon(a.outcome), a.states) != (b.violations, canon(b.outcome), b.states):
                    harness_err = f"case {i} is not reproducible"
    except HarnessError as e:
        harness_err = harness_err or str(e)
    except Exception as e:
        harness_err = harness_err or tb_text(e)

    # one report per key, smallest case index first (alphabets are ordered simplest first)
    violations.sort(key=lambda v: v[0])
    seen, reports = set(), []
    for v in violations:
        if v[2] not in seen:
            seen.add(v[2])
            reports.append(v)
    lines = []
    for key in sorted(found_known):
        lines.append(f"KNOWN-FINDING: property={pid} {known[(pid, key)]}")
    for n, (i, case, key, msg) in enumerate(reports[:MAX_REPORTS]):
        p = write_replay(pid, n, case, key, msg)
        lines.append(f"VIOLATION property={pid} replay={p}")
        lines.append(f"  [{key}] {str(msg)[:600]}")
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states), "transitions": transitions,
            "traces_validated_against_impl": traces,
            "evaluations": ncases,
            "distinct_outcomes": len(outcomes),
            "exhaustive": bool(ncases and not harness_err and not violations),
            "bound": getattr(_MOD, "BOUND", "") if _MOD else "",
            "rule": "every case of the bounded space is executed on the implementation and compared with the reference model; "
                    "states are distinct canonical states, transitions are model/implementation steps compared",
            "samples": json.loads(json.dumps(samples[:6], default=str)),
            "known_findings_seen": sorted(found_known),
        },
        "assumptions": list(getattr(_MOD, "ASSUMPTIONS", [])) if _MOD else [],
        "violations": len(reports),
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print(f"{pid}: cases={ncases} states={len(states)} transitions={transitions} traces={traces} "
          f"outcomes={len(outcomes)} violations={len(reports)} wall={time.time()-t0:.1f}s")
    if reports:
        return 1
    if harness_err:
        print(f"CHECK-ERROR {pid}: {harness_err}", file=sys.stderr)
        return 2
    if not ncases:
        print(f"CHECK-ERROR {pid}: empty space", file=sys.stderr)
        return 2
    return 0
