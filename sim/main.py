"""The checks: runs the units of a property over simulated runs, minimises and confirms
violations, writes replay files and evidence.

Exit status: 0 the property held on everything explored, 1 a violation was found (and a line
"VIOLATION property=<id> replay=<path>" printed), 2 the harness could not do its work.
"""
import copy
import gc
import hashlib
import json
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")

WARM = {}                    # properties that start from a cold symbolic library: {"Cxx": False}
LIMIT = {"quick": 480, "thorough": 7200}
MINIMISE = {"quick": 110, "thorough": 400}


def now():
    from . import sched
    return sched._real_perf()


def boot_process(prop):
    warnings.simplefilter("ignore")
    from . import boot
    boot.load(warm=WARM.get(prop, True))
    from . import catalog, checks, world      # noqa
    if prop == "C14":
        from . import contract                # noqa
    gc.collect()
    gc.freeze()


# --------------------------------------------------------------------------
# one unit
# --------------------------------------------------------------------------

def h8(x):
    return hashlib.blake2b(x.encode(), digest_size=8).hexdigest()


def summarise(out, sc, rep):
    """Add one simulated run to the counts of a unit."""
    out["runs"] += 1
    for k in ("steps", "vtime", "compared", "scribbled"):
        out[k] += rep[k]
    out["ops"] += rep["nops"]
    out["tags"][sc.get("tag", "?")] = out["tags"].get(sc.get("tag", "?"), 0) + 1
    if sc.get("unit") == "instr":
        out["tags"]["byte-code granularity"] = out["tags"].get("byte-code granularity", 0) + 1
    sw = [s for s in rep["switches"] if s[4] not in ("call", "")]
    out["switches"] += len(rep["switches"])
    out["preempt"] += len(sw)
    for s in sw[:400]:
        out["psites"].add(s[4])
    for f in rep["faults"]:
        out["faults"][f[2]] = out["faults"].get(f[2], 0) + 1
        out["fsites"].add("%s %s" % (f[2], f[3]))
    for k, v in rep["probes"].items():
        out["probes"][k] = out["probes"].get(k, 0) + v
    for k in ("blocked", "lock_acquires", "sleeps", "fair"):
        if rep["stats"].get(k):
            out["probes"][k] = out["probes"].get(k, 0) + rep["stats"][k]
    if sw or rep["faults"] or len(sc["threads"]) > 1 or rep["nops"] > 1:
        out["scheds"].add(h8(json.dumps([[op.get("o") + str(op.get("x")) for op in t] for t in sc["threads"]], sort_keys=True)
                             + json.dumps([[s[2], s[3], s[4]] for s in rep["switches"]] + [[f[2], f[3]] for f in rep["faults"]])))


def blank():
    return {"runs": 0, "steps": 0, "vtime": 0.0, "compared": 0, "scribbled": 0, "ops": 0, "tags": {}, "switches": 0, "preempt": 0,
            "psites": set(), "faults": {}, "fsites": set(), "probes": {}, "scheds": set(), "refs": 0, "viol": None, "errors": [], "sample": None}


def run_unit(prop, idx, focus, seed, tier):
    from . import checks as K
    from . import world as W
    out = blank()
    refs = W.Refs()
    try:
        batches = K.Unit(prop, idx, seed, tier, focus, refs).scenarios()
    except W.ChildError as e:
        v = no_answer(prop, focus, e)
        if v:
            out["viol"] = v
        else:
            out["errors"].append(str(e)[-1500:])
        return out
    for batch in batches:
        try:
            reps = W.run_batch(batch, refs)
        except W.ChildError as e:
            v = no_answer(prop, focus, e)
            if v:
                out["viol"] = out["viol"] or v
            else:
                out["errors"].append(str(e)[-1500:])
            continue
        for sc, rep in zip(batch, reps):
            summarise(out, sc, rep)
            if rep["viol"] and out["viol"] is None:
                out["viol"] = {"sc": sc, "rep": rep}
        if out["sample"] is None:
            out["sample"] = sample(focus, batch[0], reps[0])
    out["refs"] = len(refs.cache)
    return out


def no_answer(prop, focus, e):
    """A call that never ends even when it is the only call ever made."""
    if prop == "C12" and str(e) == "cpu limit":
        return {"sc": None, "focus": focus,
                "rep": {"viol": [{"kind": "no-progress", "op": {"o": "unit", "x": focus}, "detail": "a call made alone in a fresh process does not end", "phase": "reference"}]}}
    return None


def brief(op):
    b = {k: v for k, v in op.items() if k not in ("arr",)}
    s = json.dumps(b)
    return s if len(s) < 260 else s[:257] + "..."


def sample(focus, sc, rep):
    if sc.get("kind") == "ranks":
        return {"object": focus, "items": [brief(o) for o in sc["job"]["items"]][:6], "ranks": [m["rank"] for m in sc["members"]]}
    return {"object": focus, "setup": [[n, brief(s)] for n, s in sc["setup"]][:4], "threads": [[brief(o) for o in t][:4] for t in sc["threads"]],
            "switches": rep["switches"][:6], "faults": rep["faults"][:6], "steps": rep["steps"], "how": sc.get("tag")}


# --------------------------------------------------------------------------
# workers
# --------------------------------------------------------------------------

class Pool:
    """Forked workers; units are handed out in order, results come back in any order."""

    def __init__(self, n, fn):
        self.w = []
        for _ in range(n):
            ar, aw = os.pipe()
            br, bw = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(aw)
                    os.close(br)
                    for q in self.w:
                        os.close(q["out"])
                        os.close(q["in"])
                    self.loop(ar, bw, fn)
                finally:
                    os._exit(0)
            os.close(ar)
            os.close(bw)
            self.w.append({"pid": pid, "out": aw, "in": br, "busy": None})

    def loop(self, r, w, fn):
        from . import world as W
        while True:
            b = b""
            while len(b) < 8:
                d = os.read(r, 8 - len(b))
                if not d:
                    return
                b += d
            i = struct.unpack("<q", b)[0]
            try:
                ans = (True, W.fork_call(lambda: fn(i), cpu=1500, wall=5400))
            except W.ChildError as e:
                ans = (False, str(e))
            except Exception:
                ans = (False, traceback.format_exc())
            W._send(w, ans)

    def run(self, n, deadline, on_result):
        """Runs fn(0..n-1); stops handing out when on_result says so or time is up.
        Returns the number of units handed out."""
        from . import world as W
        nxt = 0
        stop = False
        while True:
            for q in self.w:
                if q["busy"] is None and not stop and nxt < n and now() < deadline:
                    os.write(q["out"], struct.pack("<q", nxt))
                    q["busy"] = nxt
                    nxt += 1
            busy = [q for q in self.w if q["busy"] is not None]
            if not busy:
                return nxt
            rd, _, _ = select.select([q["in"] for q in busy], [], [], 60)
            for q in busy:
                if q["in"] in rd:
                    ans = W._recv(q["in"], 600)
                    i, q["busy"] = q["busy"], None
                    if ans is None:
                        ans = (False, "worker died")
                    if on_result(i, *ans):
                        stop = True

    def close(self):
        for q in self.w:
            try:
                os.kill(q["pid"], signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(q["pid"], 0)
            os.close(q["out"])
            os.close(q["in"])
        self.w = []


# --------------------------------------------------------------------------
# ranks (C09)
# --------------------------------------------------------------------------

def prefix():
    return os.environ.get("VERIF_PREFIX", "").split()


def scratch():
    import tempfile
    return tempfile.mkdtemp(prefix="verif-ranks-")


def with_dir(pert, d):
    return dict(pert, dir=d) if pert.get("dir") else pert


def rank_units(prop, plan, seed, tier, deadline, on_result, workers):
    """All units over NRANKS rank processes, one request outstanding per rank."""
    import shutil
    from collections import deque
    from . import checks as K
    from . import ranks as R
    from . import world as W
    tmp = scratch()
    servers = [R.Rank(*K.rank_identity(seed, r), prefix()) for r in range(K.NRANKS)]
    queues = [deque() for _ in servers]
    busy = [None] * len(servers)
    pend = {}
    nxt = 0
    stop = False
    try:
        while True:
            while not stop and nxt < len(plan) and now() < deadline and min(len(q) for q in queues) < 2:
                idx, focus = plan[nxt]
                batch = K.Unit(prop, idx, seed, tier, focus, W.Refs()).scenarios()[0]
                out = blank()
                pend[nxt] = {"out": out, "left": sum(len(sc["members"]) for sc in batch), "batch": batch,
                             "ans": [[None] * len(sc["members"]) for sc in batch]}
                for j, sc in enumerate(batch):
                    for k, m in enumerate(sc["members"]):
                        queues[m["rank"]].append((nxt, j, k, sc["job"], with_dir(m["pert"], tmp)))
                nxt += 1
            for r, q in enumerate(queues):
                if busy[r] is None and q:
                    busy[r] = q.popleft()
                    servers[r].send(busy[r][3], busy[r][4])
            if all(b is None for b in busy):
                return nxt
            rd, _, _ = select.select([s.p.stdout for r, s in enumerate(servers) if busy[r] is not None], [], [], 60)
            for r, s in enumerate(servers):
                if busy[r] is None or s.p.stdout not in rd:
                    continue
                u, j, k, job, pert = busy[r]
                busy[r] = None
                P = pend[u]
                try:
                    P["ans"][j][k] = s.recv()
                except W.ChildError as e:
                    P["out"]["errors"].append(str(e)[-800:])
                P["left"] -= 1
                if P["left"] == 0:
                    finish_ranks(P, plan[u][1])
                    if on_result(u, True, P["out"]):
                        stop = True
                        for q in queues:
                            q.clear()
                        if not any(busy):
                            return nxt
                    del pend[u]
            if stop:
                # units already started stay unfinished
                if all(b is None for b in busy):
                    return nxt
    finally:
        for s in servers:
            s.close()
        shutil.rmtree(tmp, ignore_errors=True)


def finish_ranks(P, focus):
    from . import ranks as R
    out = P["out"]
    for sc, ans in zip(P["batch"], P["ans"]):
        good = [(k, a) for k, a in enumerate(ans) if a is not None]
        out["runs"] += len(good)
        out["ops"] += sum(len(a) for _, a in good)
        for m in sc["members"]:
            out["scheds"].add(h8(json.dumps([m, sc["job"]], sort_keys=True)))
            p = m["pert"]
            for n in ("churn", "print", "dir", "env"):
                if p.get(n):
                    out["probes"]["perturbed " + n] = out["probes"].get("perturbed " + n, 0) + 1
            out["probes"]["gc " + p["gc"]] = out["probes"].get("gc " + p["gc"], 0) + 1
            out["probes"]["rank %d" % m["rank"]] = out["probes"].get("rank %d" % m["rank"], 0) + 1
            out["probes"]["unrelated work"] = out["probes"].get("unrelated work", 0) + sum(1 for s in p["order"] if not isinstance(s, str))
        if out["sample"] is None:
            out["sample"] = sample(focus, sc, None)
        if len(good) < 2:
            continue
        out["compared"] += sum(len(a) for _, a in good[1:])
        bad = R.compare(sc["job"], [a for _, a in good])
        if bad and out["viol"] is None:
            i, a, b = bad[0]
            op = [o for o in sc["job"]["items"] if o["id"] == i][0]
            out["viol"] = {"sc": dict(sc, members=[sc["members"][good[a][0]], sc["members"][good[b][0]]]), "rep": {
                "viol": [{"kind": "ranks-disagree", "op": op, "detail": "", "phase": "ranks %d and %d" % (sc["members"][good[a][0]]["rank"], sc["members"][good[b][0]]["rank"])}]}}


class Servers:
    def __init__(self, seed):
        self.seed, self.s = seed, {}
        self.tmp = scratch()

    def ask(self, m, job, full=False):
        from . import checks as K
        from . import ranks as R
        if m["rank"] not in self.s:
            self.s[m["rank"]] = R.Rank(*K.rank_identity(self.seed, m["rank"]), prefix())
        return self.s[m["rank"]].ask(job, with_dir(m["pert"], self.tmp), full)

    def close(self):
        import shutil
        for s in self.s.values():
            s.close()
        shutil.rmtree(self.tmp, ignore_errors=True)


def ranks_run(sc, servers, full=False):
    """First disagreement of a two-member scenario, as a violation, or None."""
    from . import catalog as C
    from . import ranks as R
    ans = [servers.ask(m, sc["job"], full) for m in sc["members"]]
    bad = R.compare(sc["job"], ans)
    if not bad:
        return None
    i = bad[0][0]
    op = [o for o in sc["job"]["items"] if o["id"] == i][0]
    detail = ""
    if full:
        va, vb = [dict((x, v) for x, _, v in a)[i] for a in ans]
        C.RTOL, old = 0.0, C.RTOL
        detail = C.differs(va, vb) or "bits, or the order of keys, differ"
        C.RTOL = old
    return {"kind": "ranks-disagree", "op": op, "detail": detail, "phase": "ranks %d and %d" % tuple(m["rank"] for m in sc["members"])}


def minimise_ranks(sc, seed, budget):
    end = now() + budget
    sv = Servers(seed)
    try:
        def bad(c):
            try:
                return ranks_run(c, sv)
            except Exception:
                return None
        if not bad(sc):
            return None, None
        # unrelated work and orders
        for mi in range(len(sc["members"])):
            def extras(keep, sc=sc, mi=mi):
                c = copy.deepcopy(sc)
                p = c["members"][mi]["pert"]
                ex = [s for s in p["order"] if not isinstance(s, str)]
                k = iter(range(len(ex)))
                p["order"] = [s for s in p["order"] if isinstance(s, str) or next(k) in keep]
                return c
            ex = [s for s in sc["members"][mi]["pert"]["order"] if not isinstance(s, str)]
            keep = ddmin(list(range(len(ex))), lambda ks: bad(extras(set(ks))), end)
            sc = extras(set(keep))
            for field, v in (("env", {}), ("print", False), ("dir", ""), ("churn", 0), ("gc", "off"), ("rng", 1)):
                c = copy.deepcopy(sc)
                c["members"][mi]["pert"][field] = v
                if now() < end and bad(c):
                    sc = c

        def items(keep, sc=sc):
            c = copy.deepcopy(sc)
            c["job"]["items"] = [o for o in c["job"]["items"] if o["id"] in keep]
            for m in c["members"]:
                m["pert"]["order"] = [s for s in m["pert"]["order"] if not isinstance(s, str) or s in keep]
            return c
        ids = ddmin([o["id"] for o in sc["job"]["items"]], lambda ks: bad(items(set(ks))), end)
        sc = items(set(ids))
        c = copy.deepcopy(sc)
        c["members"][1]["pert"]["order"] = [s for s in c["members"][1]["pert"]["order"] if not isinstance(s, str)] + [o["id"] for o in c["job"]["items"]]
        if bad(c):
            sc = c
        v = ranks_run(sc, sv, True)
        return (sc, v) if v else (None, None)
    finally:
        sv.close()


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------

def ddmin(items, bad, end):
    """A smaller list for which bad() still holds (bad(items) does)."""
    if items and now() < end and bad([]):
        return []
    n = 2
    while len(items) >= 2 and now() < end:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        for i in range(len(chunks)):
            if now() >= end:
                return items
            rest = [x for j, c in enumerate(chunks) if j != i for x in c]
            if rest and bad(rest):
                items = rest
                n = max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(items), 2 * n)
    return items


def same(v, kind):
    return any(x["kind"] == kind for x in v)


def attempt(sc, refs, cpu=150):
    from . import world as W
    try:
        return W.run_scenario(sc, refs, cpu)
    except W.ChildError:
        return None


def minimise(sc, rep, budget):
    """(explicit scenario, report) reproducing the violation, as small as the budget allows;
    the second result is None if the violation could not be reproduced explicitly."""
    from . import world as W
    end = now() + budget
    refs = W.Refs()
    kind = rep["viol"][0]["kind"]
    best = None
    if rep.get("switches") is not None and rep["viol"][0]["kind"] != "crash":
        c = W.explicit(sc, rep)
        r = attempt(c, refs)
        if r and same(r["viol"], kind):
            best = (c, r)
    if best is None:
        r = attempt(sc, refs)
        if r and same(r["viol"], kind):
            best = (sc, r)
            if r.get("switches"):
                c = W.explicit(sc, r)
                r2 = attempt(c, refs)
                if r2 and same(r2["viol"], kind):
                    best = (c, r2)
    if best is None:
        return None
    sc, rep = best

    def bad(c):
        if now() >= end:
            return False
        try:
            r = attempt(c, refs)
        except Exception:
            return False
        if r and same(r["viol"], kind):
            state["best"] = (c, r)
            return True
        return False
    state = {"best": best}
    expl = sc["policy"]["kind"] == "explicit"
    for rnd in range(3):
        before = json.dumps(state["best"][0], sort_keys=True)
        sc = state["best"][0]
        # operations
        ids = [op["id"] for t in sc["threads"] for op in t]

        def keep_ops(ks):
            c = copy.deepcopy(state["base"])
            ks = set(ks)
            c["threads"] = [[op for op in t if op["id"] in ks] for t in c["threads"]]
            return c
        state["base"] = sc
        ddmin(ids, lambda ks: bad(keep_ops(ks)), end)
        sc = state["base"] = state["best"][0]
        if sc.get("final"):
            def keep_final(ks):
                c = copy.deepcopy(state["base"])
                c["final"] = [op for op in c["final"] if op["id"] in set(ks)]
                return c
            ddmin([op["id"] for op in sc["final"]], lambda ks: bad(keep_final(ks)), end)
            sc = state["base"] = state["best"][0]
        if expl:
            def keep_sw(ks):
                c = copy.deepcopy(state["base"])
                c["policy"]["switches"] = ks
                return c
            ids = {op["id"] for t in sc["threads"] for op in t}
            ddmin([s for s in sc["policy"]["switches"] if s[0] in ids], lambda ks: bad(keep_sw(ks)), end)
            sc = state["base"] = state["best"][0]
        for f in ("faults", "callfaults"):
            if sc.get(f):
                def keep_f(ks, f=f):
                    c = copy.deepcopy(state["base"])
                    c[f] = ks
                    return c
                ddmin(sc[f], lambda ks: bad(keep_f(ks)), end)
                sc = state["base"] = state["best"][0]
        # objects nobody uses
        used = needed_names(sc)
        c = copy.deepcopy(sc)
        c["setup"] = [e for e in c["setup"] if e[0] in used]
        if len(c["setup"]) < len(sc["setup"]):
            bad(c)
        # callbacks, scribbles
        for op in [o for t in state["best"][0]["threads"] for o in t]:
            for k in ("cb", "scribble", "keep", "buf"):
                if op.get(k):
                    c = copy.deepcopy(state["best"][0])
                    for o in [o for t in c["threads"] for o in t]:
                        if o["id"] == op["id"]:
                            o.pop(k)
                    bad(c)
        if json.dumps(state["best"][0], sort_keys=True) == before or now() >= end:
            break
    return state["best"]


def needed_names(sc):
    from . import catalog as C
    table = dict(sc["setup"])
    todo = set()
    for op in [o for t in sc["threads"] for o in t] + sc.get("final", []):
        for o in (op, (op.get("cb") or {}).get("op") or {}):
            if o.get("x"):
                todo.add(o["x"])
            if o.get("spec") is not None:
                todo |= C.refs_in(o["spec"])
    out = set()
    while todo:
        n = todo.pop()
        if n in out or n not in table:
            continue
        out.add(n)
        todo |= C.refs_in(table[n])
    return out


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------

def signature(prop, v, sc):
    """What identifies a violation: the kind, the call and the object it was made on."""
    from . import catalog as C
    op = v.get("op") or {}
    spec = ""
    if sc and sc.get("setup") is not None and op.get("x"):
        table = dict(sc["setup"])
        for t in sc["threads"]:
            for o in t:
                if o["o"] in ("build", "copy") and o.get("as"):
                    table.setdefault(o["as"], o["spec"])
        if op["x"] in table:
            spec = C.key(C.deref(table[op["x"]], table))
    elif op.get("spec") is not None:
        spec = C.key(op["spec"])
    return h8("%s|%s|%s|%s" % (prop, v["kind"], op.get("o"), spec))


def known_findings(prop):
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop):
                    sig = [w for w in line.split() if w.startswith("signature=")]
                    if sig:
                        out[sig[0][10:]] = line.strip()
    except OSError:
        pass
    return out


# --------------------------------------------------------------------------
# replay
# --------------------------------------------------------------------------

def replay(path, quiet=False):
    with open(path) as f:
        d = json.load(f)
    prop = d["property"]
    boot_process(prop)
    from . import world as W
    want = d["violation"]
    if d["form"] == "ranks":
        sv = Servers(d["seed"])
        try:
            v = ranks_run(d["scenario"], sv, True)
        finally:
            sv.close()
        got = [v] if v else []
        trace = None
    elif d["form"] == "unit":
        u = d["unit"]
        try:
            out = W.fork_call(lambda: run_unit(prop, u["index"], u["object"], d["seed"], d["tier"]), cpu=1500, wall=5400)
        except W.ChildError as e:
            print(str(e)[:500])
            return 2
        got = out["viol"]["rep"]["viol"] if out["viol"] else []
        trace = out["viol"]["rep"] if out["viol"] else None
    else:
        try:
            trace = W.run_scenario(d["scenario"], W.Refs(), 150)
            got = trace["viol"]
        except W.ChildError as e:
            print(str(e)[:500])
            return 2
    hit = [v for v in got if v["kind"] == want["kind"]]
    if not hit:
        print("not reproduced: property=%s %s" % (prop, want["kind"]))
        return 0
    exact = hit[0]["detail"] == want["detail"] and (trace is None or d.get("trace") is None or
                                                    [list(s) for s in trace.get("switches", [])] == d["trace"]["switches"])
    print("reproduced%s: %s" % (" exactly" if exact else " (details differ)", describe(hit[0])))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def describe(v):
    return "%s: %s [%s] at %s" % (v["kind"], v["detail"], v["phase"], brief(v["op"]) if v.get("op") else "-")


def write_replay(name, d):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, name)
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(p + ".tmp", p)
    return p


def confirm(path):
    """Does the replay file reproduce the violation in a fresh process?"""
    try:
        r = subprocess.run([os.path.join(HERE, "check"), "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1


def make_replay(prop, tier, seed, idx, focus, v, log):
    """Minimise, write and confirm.  Returns (path, violation, confirmed)."""
    from . import world as W
    head = {"version": 1, "property": prop, "seed": seed, "tier": tier, "unit": {"index": idx, "object": focus},
            "how": "bash /verif/check --replay <this file>"}
    sc, rep = v["sc"], v["rep"]
    name = "%s-s%d-u%d.json" % (prop, seed, idx)
    if sc is not None and sc.get("kind") == "ranks":
        m, vv = minimise_ranks(sc, seed, MINIMISE[tier])
        if m is not None:
            p = write_replay(name, dict(head, form="ranks", violation=vv, scenario=m))
            return p, vv, confirm(p), m
        vv = rep["viol"][0]
        p = write_replay(name, dict(head, form="ranks", violation=vv, scenario=sc))
        return p, vv, confirm(p), sc
    if sc is not None:
        best = None
        try:
            best = W.fork_call(lambda: minimise(sc, rep, MINIMISE[tier]), cpu=3000, wall=1200)
        except W.ChildError as e:
            log("minimisation failed: %s" % str(e)[-500:])
        if best is not None:
            m, r = best
            vv = r["viol"][0]
            p = write_replay(name, dict(head, form="scenario", violation=vv, scenario=m,
                                        trace={"switches": r.get("switches", []), "faults": r.get("faults", []), "steps": r.get("steps", 0)},
                                        found={"policy": sc["policy"], "threads": len(sc["threads"]), "operations": sum(map(len, sc["threads"])),
                                               "switches": len(rep.get("switches", [])), "faults": len(rep.get("faults", []))}))
            if confirm(p):
                return p, vv, True, m
        # as it was found
        p = write_replay(name, dict(head, form="scenario", violation=rep["viol"][0], scenario=sc))
        if confirm(p):
            return p, rep["viol"][0], True, sc
    vv = rep["viol"][0]
    p = write_replay(name, dict(head, form="unit", violation=vv))
    return p, vv, confirm(p), sc


# --------------------------------------------------------------------------
# a check
# --------------------------------------------------------------------------

REAL = ["every FIAT module from the working tree (cells, geometry, quadrature, expansions, polynomial sets, functionals, dual sets, all element families, composites)",
        "numpy, sympy (called by FIAT, not preempted inside)", "Python threads (one runs at a time), garbage collector, exceptions, process forks"]
STUB = ["thread scheduling (seeded scheduler, preemption at FIAT lines, byte codes or calls)", "locks, RLocks and what is built on them (simulated, with deadlock detection)",
        "clocks and sleeping (simulated time)", "os.urandom and the private random generator of sympy (seeded)",
        "interrupts and failing allocations or calls (injected)", "callers: client sessions, callbacks, point sequences (generated)"]


def check(prop, tier, seed, workers, limit, only=None):
    t0 = now_real()
    boot_process(prop)
    from . import checks as K
    plan = K.plan(prop, tier, seed)
    if only:
        a, b = (only.split(":") + [""])[:2]
        plan = plan[int(a or 0):int(b) if b else len(plan)]
    tot = blank()
    tot["tags"], errors, samples, viols, unit_s, done = {}, [], [], {}, [], []
    known = known_findings(prop)
    printed = set()
    state = {"stop": False}

    def log(*a):
        print(*a, file=sys.stderr, flush=True)

    def on_result(i, ok, out):
        if not ok:
            errors.append("unit %d (%s): %s" % (plan[i][0], plan[i][1], out[-1500:]))
            return False
        for e in out["errors"]:
            errors.append("unit %d (%s): %s" % (plan[i][0], plan[i][1], e))
        done.append(i)
        for k in ("runs", "steps", "vtime", "compared", "scribbled", "ops", "switches", "preempt", "refs"):
            tot[k] += out[k]
        for k in ("tags", "faults", "probes"):
            for a, n in out[k].items():
                tot[k][a] = tot[k].get(a, 0) + n
        for k in ("psites", "fsites", "scheds"):
            tot[k] |= out[k]
        if out["sample"] and len(samples) < 400:
            samples.append((i, out["sample"]))
        v = out["viol"]
        if v:
            sig = signature(prop, v["rep"]["viol"][0], v["sc"])
            if sig in known:
                if sig not in printed:
                    printed.add(sig)
                    print("KNOWN-FINDING: property=%s %s" % (prop, known[sig].split("signature=")[1].split(" ", 1)[-1]), flush=True)
                return False
            viols[i] = v
            log("unit %d (%s): %s" % (plan[i][0], plan[i][1], describe(v["rep"]["viol"][0])[:600]))
            return True
        return False

    deadline = t0 + limit
    if prop == "C09":
        handed = rank_units(prop, plan, seed, tier, deadline, on_result, workers)
    else:
        pool = Pool(workers, lambda i: run_unit(prop, plan[i][0], plan[i][1], seed, tier))
        handed = pool.run(len(plan), deadline, on_result)
        pool.close()
    t_explore = now_real() - t0
    violations = []
    status = 0
    unconfirmed = 0
    for i in sorted(viols)[:4]:
        path, v, ok, sc = make_replay(prop, tier, seed, plan[i][0], plan[i][1], viols[i], log)
        if ok:
            log(describe(v)[:1500])
            sig = signature(prop, v, sc)
            log("signature=%s" % sig)
            violations.append({"kind": v["kind"], "detail": v["detail"], "op": v.get("op"), "object": plan[i][1], "replay": path, "signature": sig})
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            status = 1
            break
        unconfirmed += 1
        log("not confirmed: unit %d (%s) %s" % (plan[i][0], plan[i][1], describe(v)[:800]))
        errors.append("unit %d (%s): a violation was seen once and not again: %s" % (plan[i][0], plan[i][1], describe(v)[:600]))
    wall = now_real() - t0
    if unconfirmed and status == 0:
        # something misbehaves but no execution of it can be shown twice: no verdict
        status = 2
    if errors and status == 0 and len(errors) > max(3, handed // 20):
        status = 2
    for e in errors[:5]:
        log("harness: " + e)
    samples.sort(key=lambda s: s[0])
    step = max(1, len(samples) // 4)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": tot["runs"],
              "distinct_nontrivial": len(tot["scheds"]),
              "rule": RULES[prop if prop in RULES else "*"],
              "samples": [s for _, s in samples[::step][:4]],
              "units_planned": len(plan), "units_run": len(done), "units_not_started_for_lack_of_time": max(0, len(plan) - handed) if not viols else 0,
              "harness_errors": len(errors),
              "seeds_used": tot["runs"],
              "simulated_runs_per_hour": int(tot["runs"] * 3600 / max(1e-9, t_explore)),
              "seeds_per_hour": int(tot["runs"] * 3600 / max(1e-9, t_explore)),
              "simulated_time_s": round(tot["vtime"], 3), "simulated_steps": tot["steps"],
              "calls_made": tot["ops"], "answers_compared": tot["compared"], "reference_answers": tot["refs"],
              "context_switches": tot["switches"], "preemptions_inside_calls": tot["preempt"],
              "distinct_preemption_sites": len(tot["psites"]), "distinct_fault_sites": len(tot["fsites"]),
              "faults_injected": dict(sorted(tot["faults"].items())), "tables_overwritten_by_callers": tot["scribbled"],
              "run_kinds": dict(sorted(tot["tags"].items())), "events": dict(sorted(tot["probes"].items())),
              "real_code": REAL, "stubs": STUB},
          "assumptions": ASSUME,
          "wall_s": round(wall, 2),
          "violations": violations}
    os.makedirs(EVIDENCE, exist_ok=True)
    p = os.path.join(EVIDENCE, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    log("%s %s seed %d: %d units, %d runs, %d calls, %d distinct, %d violations, %d harness errors, %.1f s"
        % (prop, tier, seed, len(done), tot["runs"], tot["ops"], len(tot["scheds"]), len(viols), len(errors), wall))
    return status


RULES = {
    "*": "One evaluation is one simulated run: a seeded workload of calls of several callers on one set of objects, under one seeded schedule and fault sequence, in a process of its own. "
         "Counted as distinct and non-trivial: runs that differ in the calls made or in the sequence of context switches (from, to, program site) and faults (kind, program site), and that have more than one call, a switch or a fault.",
    "C09": "One evaluation is one job (constructions and queries) executed by one simulated rank: an interpreter with its own hash seed, heap layout, clock, entropy, ambient settings, order of work and unrelated work. "
           "Counted as distinct: different pairs of job and perturbation; every one is compared bit for bit with another rank's answers.",
}
ASSUME = ["numpy, sympy and the interpreter are atomic between two FIAT lines (or byte codes); data races inside them are out of scope",
          "no fault is injected inside clean-up code (finally bodies, handlers, with headers), which no Python program can protect",
          "answers are compared with those of the same call made alone on the same tree, up to a relative rounding of 1e-9 (bit for bit for C09)",
          "one BLAS thread"]


def now_real():
    from . import sched
    return sched._real_perf()


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(os.path.abspath(argv[1]))
    prop = argv[0]
    opts = {"tier": os.environ.get("VERIF_TIER") or "quick", "seed": os.environ.get("VERIF_SEED") or "1",
            "workers": str(os.cpu_count() or 4), "limit": "", "units": ""}
    k = 1
    while k < len(argv):
        a = argv[k]
        if a in ("quick", "thorough"):
            opts["tier"] = a
        elif a.startswith("--"):
            opts[a[2:]] = argv[k + 1]
            k += 1
        k += 1
    tier = opts["tier"] if opts["tier"] in LIMIT else "quick"
    try:
        seed = int(opts["seed"])
    except ValueError:
        seed = 1
    return check(prop, tier, seed, max(1, int(opts["workers"])), float(opts["limit"] or LIMIT[tier]), opts["units"] or None)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
