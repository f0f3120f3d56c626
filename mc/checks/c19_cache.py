"""C19: whatever the derivative cache holds, the derivatives used are those of the model."""
import hashlib
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from mc.core import Out, HarnessError, VERIF, REPO

PROP = "C19"
BOUND = ("every byte prefix (crash) and zero-filled prefix of a cache entry; every interleaving, to quiescence or with either process killed at any system "
         "call, of two processes filling the same entry (recorded system calls of the real writer, explored as an explicit state graph), each "
         "distinct resulting file read by the real reader in a fresh process; all segments of 3 expressions under every partition and order of "
         "their symbols, and a pair with equal 40-bit digests, written and read back in both orders")
ASSUMPTIONS = ["writes of one system call are not torn inside the interleavings; prefixes of every length are covered separately",
               "both writers start from an entry that is missing or unusable"]
NATIVE = os.path.join(VERIF, "mc", "native")
ROLES = ("big", "small")
_T = {}


def names():
    out = []
    for k, syms in ((0, "abc"), (1, "abc"), (2, "abcd")):
        for assign in itertools.product("cpd", repeat=len(syms)):
            g = {r: [s for s, x in zip(syms, assign) if x == r] for r in "cpd"}
            if not g["p"] or len(g["d"]) > len(g["p"]):
                continue
            for cs in itertools.permutations(g["c"]):
                for ps in itertools.permutations(g["p"]):
                    for ds in itertools.permutations(g["d"]):
                        out.append(f"k:{k}:{''.join(cs)}:{''.join(ps)}:{''.join(ds)}")
    return out


def child(args, tmp, pre=None, timeout=150):
    env = dict(os.environ, TMPDIR=tmp, PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1")
    env.update(pre or {})
    try:
        p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(NATIVE, "cache_child.py")] + args, env=env, capture_output=True, timeout=timeout, cwd=tmp)
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace"), "timeout"
    return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")[-600:]


def expected(name):
    """Hessian, rhs and gradient of the Lagrangian at the probe point, from polynomial arithmetic of its own"""
    V = {"a": 0.7, "b": -1.3, "c": 1.9, "d": 0.4}
    if name == "big":
        i = np.arange(2, 1150)
        s = np.sqrt(9 + float(np.sum(np.cos(i * V["a"]) * np.sin(i * V["b"]))) / 2000)
        H, g, v = np.array([[0.0, 1.0], [1.0, 0.0]]), np.array([V["d"], V["c"] + s]), np.array([V["c"], V["d"]])
        return H, H @ v - g, g
    mono = {"small": [(1, "dab"), (1, "dbb")]}
    if name in mono:
        terms, vs = mono[name], "bd"
    elif name.startswith("n:"):
        terms, vs = [(int(name[2:]), "da"), (1, "db")], "bd"
    else:
        _, k, cs, ps, ds = name.split(":")
        terms = [[(1, "cab"), (1, "caa"), (2, "acc")], [(1, "cabb"), (3, "ca"), (1, "bc")], [(1, "da"), (-2, "db"), (1, "cab"), (1, "dc")]][int(k)]
        vs = ps + ds

    def drop(t, q):
        k, w = t
        n = w.count(q)
        return (k * n, w.replace(q, "", 1)) if n else (0, "")

    def val(ts):
        return sum(k * float(np.prod([V[q] for q in w])) for k, w in ts)
    g = np.array([val([drop(t, q) for t in terms]) for q in vs])
    H = np.array([[val([drop(drop(t, q), r) for t in terms]) for r in vs] for q in vs])
    v = np.array([V[q] for q in vs])
    return H, H @ v - g, g


def wrong(name, got):
    for nm, a, b in zip(("matrix", "right-hand side", "residual"), got, expected(name)):
        a = np.asarray(a, dtype=float)
        if a.shape != b.shape or not np.all(np.abs(a - b) <= 1e-9 * (1 + np.max(np.abs(b)))):
            return f"{nm} {a.tolist()} instead of {b.tolist()}"
    return None


def parse_log(path, root):
    """recorded operations with paths relative to the cache root"""
    raw = open(path, "rb").read()
    ops, i = [], 0
    while i < len(raw):
        j = raw.index(b"\n", i)
        op, a, b, p = raw[i:j].decode().split(" ", 3)
        i = j + 1
        rel = lambda q: os.path.relpath(q, root)
        if op == "write":
            n = int(b)
            ops.append(("write", int(a), raw[i:i + n]))
            i += n
        elif op in ("rename", "link"):
            j = raw.index(b"\n", i)
            ops.append((op, rel(p), rel(raw[i:j].decode())))
            i = j + 1
        elif op == "unlink":
            ops.append((op, rel(p), None))
        elif op == "open":
            ops.append((op, int(a), (int(b), rel(p))))
        elif op in ("close", "trunc", "lock"):
            ops.append((op, int(a), int(b)))
    return ops


def record(seg):
    """(operations, final files) of one real process filling an empty cache"""
    tmp = tempfile.mkdtemp()
    try:
        so = _T["so"]
        log = os.path.join(tmp, "log")
        root = os.path.join(tmp, "t")
        os.mkdir(root)
        rc, o, e = child(["write", seg], root, {"LD_PRELOAD": so, "FSLOG_DIR_LATER": root + "/", "FSLOG_DIR": "/nonexistent-", "FSLOG_OUT": log})
        if rc != 0 or "RESULT " not in o:
            raise HarnessError(f"the recording run failed: {rc} {e}")
        files = {}
        for r, _, fs in os.walk(root):
            for f in fs:
                files[os.path.relpath(os.path.join(r, f), root)] = open(os.path.join(r, f), "rb").read()
        return (parse_log(log, root) if os.path.exists(log) else []), files, json.loads(o.split("RESULT ")[1])
    finally:
        shutil.rmtree(tmp)


class FS:
    """file system model: names -> inode, inodes hold bytes, per process descriptors"""

    def __init__(self):
        self.names, self.data, self.fds, self.next, self.lock = {}, {}, {}, 0, {}

    def copy(self):
        o = FS()
        o.names, o.data, o.fds, o.next, o.lock = dict(self.names), dict(self.data), dict(self.fds), self.next, dict(self.lock)
        return o

    def apply(self, who, op):
        """False: the process stops here; None: blocked"""
        k, a, b = op
        if k == "open":
            flags, path = b
            if path in self.names:
                if flags & os.O_EXCL and flags & os.O_CREAT:
                    return False
                ino = self.names[path]
                if flags & os.O_TRUNC:
                    self.data[ino] = b""
            else:
                ino = self.next
                self.next += 1
                self.names[path], self.data[ino] = ino, b""
            self.fds[(who, a)] = (ino, 0, bool(flags & os.O_APPEND))
        elif k == "write":
            ino, off, app = self.fds[(who, a)]
            d = self.data[ino]
            off = len(d) if app else off
            d = d + b"\0" * (off - len(d))
            self.data[ino] = d[:off] + b + d[off + len(b):]
            self.fds[(who, a)] = (ino, off + len(b), app)
        elif k == "trunc":
            ino = self.fds[(who, a)][0]
            self.data[ino] = (self.data[ino] + b"\0" * b)[:b]
        elif k == "lock":
            ino = self.fds[(who, a)][0]
            if b and self.lock.get(ino, who) != who:
                return None
            self.lock[ino] = who
            if not b:
                self.lock.pop(ino)
        elif k == "close":
            ino = self.fds.pop((who, a))[0]
            if self.lock.get(ino) == who and not any(f[0] == ino and w == who for (w, _), f in self.fds.items()):
                self.lock.pop(ino)
        elif k == "rename":
            if a not in self.names:
                return False
            self.names[b] = self.names.pop(a)
        elif k == "link":
            if a not in self.names or b in self.names:
                return False
            self.names[b] = self.names[a]
        elif k == "unlink":
            if a not in self.names:
                return False
            self.names.pop(a)
        return True

    def digest(self):
        inv = {}
        for n, i in sorted(self.names.items()):
            inv.setdefault(i, len(inv))
        for k, f in sorted(self.fds.items()):
            inv.setdefault(f[0], len(inv))
        h = hashlib.blake2b(digest_size=12)
        h.update(repr((sorted((n, inv[i]) for n, i in self.names.items()), sorted((k, inv[f[0]], f[1:]) for k, f in self.fds.items()),
                       sorted((inv.get(i), w) for i, w in self.lock.items()))).encode())
        for i in sorted(inv, key=inv.get):
            h.update(hashlib.blake2b(self.data[i], digest_size=12).digest())
        return h.digest()


def explore(traces, final):
    """all interleavings of the two writers; distinct contents of the final files with a shortest schedule"""
    found, seen, n = {}, set(), 0
    todo = [(FS(), (0, 0), "")]
    while todo:
        nxt = []
        for fs, pos, sched in todo:
            c = tuple((f, fs.data[fs.names[f]]) for f in final if f in fs.names)
            h = hashlib.blake2b(repr([(f, hashlib.blake2b(d).hexdigest()) for f, d in c]).encode()).hexdigest()
            if h not in found:
                found[h] = sched
            for w in (0, 1):
                if pos[w] >= len(traces[w]):
                    continue
                g = fs.copy()
                r = g.apply(w, traces[w][pos[w]])
                n += 1
                if r is None:
                    continue
                p = list(pos)
                p[w] = p[w] + 1 if r else len(traces[w])
                k = (g.digest(), tuple(p))
                if k not in seen:
                    seen.add(k)
                    nxt.append((g, tuple(p), sched + "AB"[w]))
        todo = nxt
    return found, len(seen) + 1, n


def play(traces, sched):
    fs, pos = FS(), [0, 0]
    for x in sched:
        w = "AB".index(x)
        r = fs.apply(w, traces[w][pos[w]])
        pos[w] = pos[w] + 1 if r else len(traces[w])
    return fs


def really(traces, sched, root):
    """the same schedule with real system calls below root"""
    fds, pos = {}, [0, 0]
    for x in sched:
        w = "AB".index(x)
        k, a, b = traces[w][pos[w]]
        pos[w] += 1
        j = lambda q: os.path.join(root, q)
        try:
            if k == "open":
                os.makedirs(os.path.dirname(j(b[1])), exist_ok=True)
                fds[(w, a)] = os.open(j(b[1]), b[0] & ~os.O_CLOEXEC, 0o600)
            elif k == "write":
                os.write(fds[(w, a)], b)
            elif k == "trunc":
                os.ftruncate(fds[(w, a)], b)
            elif k == "close":
                os.close(fds.pop((w, a)))
            elif k == "rename":
                os.rename(j(a), j(b))
            elif k == "link":
                os.link(j(a), j(b))
            elif k == "unlink":
                os.unlink(j(a))
        except OSError:
            pos[w] = len(traces[w])
    for f in fds.values():
        os.close(f)


def prepare():
    if _T:
        return
    d = os.environ["TMPDIR"]
    so = os.path.join(d, "fslog.so")
    p = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, os.path.join(NATIVE, "fslog.c"), "-ldl"], capture_output=True, text=True)
    if p.returncode:
        raise HarnessError("gcc: " + p.stderr[-500:])
    _T["so"] = so
    for seg in ("big", "small"):
        a, fa, ra = record(seg)
        b, fb, rb = record(seg)
        final = sorted(set(fa) & set(fb))
        _T[seg] = {"traces": (a, b), "final": final, "files": fa, "result": (ra, rb)}
        if final:
            found, states, steps = explore((a, b), final)
            _T[seg].update(found=found, states=states, steps=steps)


def cases(tier):
    for seg in ("small", "big"):
        yield {"fam": "solo", "seg": seg}
        for sched in sorted(_T[seg].get("found", {}).values(), key=lambda s: (len(s), s)):
            yield {"fam": "race", "seg": seg, "sched": sched}
    files = _T["small"]["files"]
    for f in sorted(files):
        n = len(files[f])
        st = max(1, n // 24)
        for a in range(0, n + 1, st):
            yield {"fam": "prefix", "a": a, "b": min(n + 1, a + st), "tail": 0, "step": 1}
            yield {"fam": "prefix", "a": a, "b": min(n + 1, a + st), "tail": 1, "step": 1 if tier == "thorough" else 3}
    ns = names()
    for o in ("fwd", "rev"):
        for k in range(0, len(ns), 40):
            yield {"fam": "keys", "order": o, "k": k}
    yield {"fam": "digest", "pair": [624918, 1525270]}
    yield {"fam": "digest", "pair": [1525270, 624918]}


def report(out, key, what, rc, o, e, segs):
    """one child run: everything printed must be right"""
    at = [l[3:] for l in o.split("\n") if l.startswith("AT ")]
    res = [json.loads(l[7:]) for l in o.split("\n") if l.startswith("RESULT ")]
    for k, r in enumerate(res):
        n = segs[k] if k < len(segs) else segs[-1]
        for q in r if isinstance(r[0][0], list) and isinstance(r[0][0][0], list) else [r]:
            out.step()
            w = wrong(n, q)
            if w:
                out.bad(key + ":wrong", f"{what}{' at ' + at[k] if at else ''}: derivatives of {n}: {w}")
                return
    if rc is None:
        out.bad(key + ":hang", f"{what}{' at ' + at[-1] if at else ''}: no result within the time limit")
    elif rc != 0:
        out.bad(key + ":died", f"{what}{' at ' + at[-1] if at else ''}: the process ended with {'signal ' + str(-rc) if rc < 0 else rc}: {e}")


def run_case(case):
    out = Out()
    tmp = tempfile.mkdtemp()
    try:
        go(out, case, tmp)
        return out
    finally:
        shutil.rmtree(tmp)


def go(out, case, tmp):
    fam = case["fam"]
    out.state(case)
    if fam == "solo":
        t = _T[case["seg"]]
        for r in t["result"]:
            w = wrong(case["seg"], r)
            if w:
                out.bad("solo:wrong", f"fresh derivatives of {case['seg']}: {w}")
        out.step(t.get("steps", 1))
        out.outcome = ("solo", case["seg"], len(t["files"]), t.get("states"))
        for n in range(t.get("states", 0)):
            out.state("fs", case["seg"], n)
        return
    if fam == "race":
        t = _T[case["seg"]]
        fs = play(t["traces"], case["sched"])
        have = {n: fs.data[i] for n, i in fs.names.items()}
        really(t["traces"], case["sched"], tmp)
        real = {}
        for r, _, ff in os.walk(tmp):
            for f in ff:
                real[os.path.relpath(os.path.join(r, f), tmp)] = open(os.path.join(r, f), "rb").read()
        if real != have:
            raise HarnessError(f"the file system model and the real one differ after {case['sched']}")
        out.step(len(case["sched"]))
        rc, o, e = child(["read", case["seg"]], tmp)
        report(out, "race:" + case["seg"], f"two processes filled the cache in the order {case['sched']} (the others' later steps not taken), then a third reads it",
               rc, o, e, [case["seg"]])
        out.outcome = ("race", rc)
        return
    if fam == "prefix":
        t = _T["small"]
        for f, d in t["files"].items():
            p = os.path.join(tmp, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p + ".full", "wb").write(d)
            rc, o, e = child(["files", p, "small", str(case["a"]), str(case["b"]), str(case["step"]), str(case["tail"])], tmp)
            report(out, f"prefix:{case['tail']}", f"a cache entry cut off after some bytes{' and filled with zeros' if case['tail'] else ''}", rc, o, e, ["small"])
        out.outcome = ("prefix", rc)
        return
    if fam == "keys":
        ns = names()
        ns = ns[::-1] if case["order"] == "rev" else ns
        part = ns[max(0, case["k"] - 40):case["k"] + 40]
        for what, seq in (("derived", part), ("read back", part), ("read back in reverse", part[::-1])):
            rc, o, e = child(["seq"] + seq, tmp)
            report(out, "keys", f"{what} in one cache with {len(part)} segments", rc, o, e, seq)
            if out.violations:
                return
        out.outcome = ("keys", rc)
        return
    if fam == "digest":
        seq = [f"n:{k}" for k in case["pair"]]
        for s in (seq, seq[::-1]):
            rc, o, e = child(["seq"] + s, tmp)
            report(out, "digest", f"segments with the same short digest {s}", rc, o, e, s)
        out.outcome = ("digest", rc)
