"""Simulated ranks: interpreters of one installation that differ in everything a parallel job
does not control (hash seed, heap layout, clocks, entropy, ambient settings, unrelated work),
given the same job.  Their answers must agree bit for bit.

As a program: a rank.  Reads pickled (job, perturbation, full) requests from standard input,
runs each in a forked child and writes the pickled answers to standard output.
"""
import gc
import hashlib
import os
import pickle
import random
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# --------------------------------------------------------------------------
# in the rank
# --------------------------------------------------------------------------

def bits(v, h):
    """Feed the exact content of a normalised answer to a hash."""
    import numpy as np
    if isinstance(v, np.ndarray):
        h.update(b"A%r%s" % (v.shape, v.dtype.str.encode()))
        h.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, dict):
        if "keys" in v and "map" in v:
            h.update(("K%r" % (v["keys"],)).encode())
            v = v["map"]
        for k in v:
            h.update(("k" + str(k)).encode())
            bits(v[k], h)
        h.update(b"d")
    elif isinstance(v, (list, tuple)):
        h.update(b"L%d" % len(v))
        for x in v:
            bits(x, h)
    elif isinstance(v, float):
        h.update(b"F" + struct.pack("<d", v))
    else:
        h.update(("S" + repr(v)).encode())


def churn(seed):
    """A heap layout: allocations of many sizes, some of them released again."""
    if not seed:
        return None
    import numpy as np
    r = random.Random("churn/%s" % seed)
    keep = []
    for _ in range(r.randint(200, 3000)):
        k = r.randrange(6)
        keep.append({0: lambda: object(), 1: lambda: [None] * r.randint(0, 40), 2: lambda: {i: i for i in range(r.randint(0, 9))},
                     3: lambda: np.empty(r.randint(1, 300)), 4: lambda: bytearray(r.randint(1, 900)),
                     5: lambda: tuple(range(r.randint(1, 12)))}[k]())
    r.shuffle(keep)
    del keep[r.randint(1, len(keep)):]
    return keep


def host(h):
    """The machine that a rank finds itself on."""
    import platform
    import socket
    os.cpu_count = lambda: h["cpus"]
    os.sched_getaffinity = lambda pid: set(range(h["cpus"]))
    os.getpid = lambda: h["pid"]
    os.getppid = lambda: h["pid"] - 1
    os.getloadavg = lambda: (h["load"],) * 3
    socket.gethostname = platform.node = lambda: h["name"]
    if "uuid" in sys.modules:
        sys.modules["uuid"].getnode = lambda: h["pid"]
    sys.argv = list(h["argv"])


def run_job(job, pert, full):
    """[(item id, digest, value or None)] of a job under a perturbation."""
    import numpy as np
    from . import sched
    from . import catalog as C
    from . import world as W
    held = [churn(pert.get("churn"))]
    s = pert.get("rng", 0)
    random.seed(s)
    np.random.seed(s % (1 << 31))
    sched._entropy[0] = s * 7919 + 1
    sched._base_vtime = 1.0e9 + 1.0e5 * (s % 997) + s * 1e-3
    if sched.DICE is not None:
        sched.DICE.seed(s)
    if pert.get("dir"):
        d = os.path.join(pert["dir"], "r%d" % s)
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
    if pert.get("print"):
        np.set_printoptions(precision=3, suppress=True, threshold=4, floatmode="fixed")
    for k, v in pert.get("env", {}).items():
        os.environ[k] = v
    if pert.get("env", {}).get("TZ"):
        time.tzset()
    host(pert.get("host") or {"cpus": 4, "pid": 4711, "name": "node0", "argv": ["job"], "load": 0.5})
    if pert.get("gc") == "often":
        gc.set_threshold(3, 2, 2)
        gc.enable()
    elif pert.get("gc") == "off":
        gc.disable()
    env = {}
    priv = {}
    out = {}
    items = {op["id"]: op for op in job["items"]}
    for step in pert["order"]:
        if isinstance(step, str):
            op, e = items[step], env
        else:
            op, e = step, priv
        try:
            if op["o"] == "build":
                x = C.build(op["spec"], e)
                e[op["as"]] = x
                v = C.build_digest(x)
            elif op["o"] == "gc":
                gc.collect()
                continue
            elif op["o"] == "drop":
                e.pop(op["x"], None)
                continue
            elif op["o"] == "churn":
                held.append(churn(op["seed"]))
                continue
            else:
                if op["o"] != "fun" and op["x"] not in e:
                    raise LookupError("no object")
                v = W.raw_op(op, e, C.op_args(op))
            v = ["ok", C.norm(v)]
        except Exception as ex:
            v = ["raised", type(ex).__name__]
        if e is env:
            h = hashlib.sha256()
            bits(v, h)
            out[op["id"]] = (h.hexdigest(), v if full else None)
    return [(i, out[i][0], out[i][1]) for i in items if i in out]


def serve():
    from . import boot
    from . import world as W
    inp, outp = os.fdopen(os.dup(0), "rb"), os.dup(1)
    os.dup2(2, 1)
    warm = sys.argv[1] == "warm"
    boot.load(warm=warm)
    boot.address_order(int(os.environ.get("PYTHONHASHSEED", "0") or 0))
    from . import catalog  # noqa
    gc.collect()
    gc.freeze()
    while True:
        hd = inp.read(8)
        if len(hd) < 8:
            return
        job, pert, full = pickle.loads(inp.read(struct.unpack("<Q", hd)[0]))
        try:
            ans = (True, W.fork_call(lambda: run_job(job, pert, full), cpu=300, wall=900))
        except W.ChildError as e:
            ans = (False, str(e))
        W._send(outp, ans)


# --------------------------------------------------------------------------
# in the driver
# --------------------------------------------------------------------------

class Rank:
    def __init__(self, hashseed, warm, prefix):
        env = {k: v for k, v in os.environ.items()}
        env.update(PYTHONHASHSEED=str(hashseed), PYTHONPATH=HERE)
        self.key = (hashseed, warm)
        self.p = subprocess.Popen(prefix + [sys.executable, "-B", "-W", "ignore", "-m", "sim.ranks", "warm" if warm else "cold"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=HERE, close_fds=True)

    def send(self, job, pert, full=False):
        b = pickle.dumps((job, pert, full), protocol=4)
        self.p.stdin.write(struct.pack("<Q", len(b)) + b)
        self.p.stdin.flush()

    def recv(self):
        from . import world as W
        hd = self.p.stdout.read(8)
        if len(hd) < 8:
            raise W.ChildError("rank died")
        ok, v = pickle.loads(self.p.stdout.read(struct.unpack("<Q", hd)[0]))
        if not ok:
            raise W.ChildError(v)
        return v

    def ask(self, job, pert, full=False):
        self.send(job, pert, full)
        return self.recv()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
            self.p.wait()


NEUTRAL = {"rng": 1, "churn": 0, "dir": "", "print": False, "env": {}, "gc": "off"}


def compare(job, answers):
    """[(item, i, j)] where rank i and rank j disagree."""
    bad = []
    base = {i: d for i, d, _ in answers[0]}
    for k, a in enumerate(answers[1:], 1):
        for i, d, _ in a:
            if base.get(i) != d:
                bad.append((i, 0, k))
    return bad


if __name__ == "__main__":
    from sim import ranks
    ranks.serve()
