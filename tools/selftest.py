"""Is one seed one execution?  Runs a few units of every check twice, with different numbers of workers and in
different order, and compares everything that was counted: steps, switches, program sites, faults, answers.

    tools/selftest [properties ...]
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import main as M      # noqa


def digest(out):
    return json.dumps({k: (sorted(v) if isinstance(v, set) else v) for k, v in out.items()}, sort_keys=True, default=str)


def one(prop, seed, units, workers, order):
    got = {}
    pool = M.Pool(workers, lambda i: digest(M.run_unit(prop, units[order[i]][0], units[order[i]][1], seed, "quick")))

    def on_result(i, ok, out):
        got[order[i]] = out if ok else "error: " + out[-500:]
    pool.run(len(order), M.now() + 3600, on_result)
    pool.close()
    return got


def main(props):
    bad = 0
    for prop in props:
        pid = os.fork()
        if pid == 0:
            M.boot_process(prop)
            from sim import checks as K
            units = [u for u in K.plan(prop, "quick", 7) if u[1] not in K.SLOW][::12][:24]
            n = len(units)
            a = one(prop, 7, units, 8, list(range(n)))
            b = one(prop, 7, units, 3, list(range(n))[::-1])
            diff = [units[i] for i in range(n) if a[i] != b[i]]
            err = [units[i] for i in range(n) if a[i].startswith("error")]
            print("%s: %d units, %d differ %s, %d errors" % (prop, n, len(diff), diff[:5], len(err)), flush=True)
            for u in diff[:1]:
                i = units.index(u)
                x, y = json.loads(a[i]), json.loads(b[i])
                for k in x:
                    if x[k] != y[k]:
                        print("   ", k, str(x[k])[:300], "|", str(y[k])[:300], flush=True)
            os._exit(1 if diff or err else 0)
        _, st = os.waitpid(pid, 0)
        bad |= st != 0
    return 1 if bad else 0


if __name__ == "__main__":
    os.environ.setdefault("VERIF_SEED", "7")
    sys.exit(main(sys.argv[1:] or ["C%02d" % i for i in range(1, 16) if i != 9]))
