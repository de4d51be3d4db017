"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("deterministic simulation: seeded search over %s; every run in one process under a simulated scheduler, clock, locks and entropy; "
        "checked against %s; violations minimised and replayed")
SOLO = "the same call made alone in a fresh process"
T = {
    "C01": ("thread interleavings (targeted preemption at every FIAT line, random walks, PCT, byte-code granularity) of queries on shared objects", SOLO),
    "C02": ("thread interleavings of constructions mixed with queries", SOLO),
    "C03": ("interrupts, memory errors and failing calls at every program site of queries, alone and with a second thread", SOLO),
    "C04": ("interrupts, memory errors and failing calls at every program site of constructors over shared components", SOLO),
    "C05": ("long interleaved histories of client sessions", SOLO),
    "C06": ("interleaved uses of composite elements and the components they share", "private copies"),
    "C07": ("schedules and faults with every argument watched at every line", "a snapshot of the arguments"),
    "C08": ("histories and interleavings in which callers overwrite the tables they were given", SOLO),
    "C09": ("simulated ranks of a parallel job that differ in hash seed, heap, clock, entropy, ambient settings and order of work", "one another bit for bit"),
    "C10": ("calls, schedules and faults with process-wide state compared before and after", "a snapshot of the state"),
    "C11": ("histories of creation, dropping, collection, cache eviction and memory reuse", SOLO),
    "C12": ("schedules, stalls, faults and long histories with counted work and deadlock detection", "the work of the same call made alone in a fresh process"),
    "C13": ("callbacks and point sequences that fail or re-enter at the k-th evaluation", SOLO),
    "C14": ("disturbed histories (schedules, faults, other constructions)", "the definition of a finite element and of a quadrature rule"),
    "C15": ("disturbed sessions (schedules, interrupts, memory errors, timeouts) repeated over and over, and long series of calls with ever new arguments",
            "the memory that the library's own code has allocated and not given back, which must stop growing"),
}
NOTE = ("seeded exploration, not exhaustive: every object of a fixed pool of 280+ cells, rules, polynomial sets and elements plus random recipes is simulated under generated workloads, "
        "schedules and faults; quick and thorough differ in the number of passes, random recipes and runs per object. numpy, sympy and the interpreter are atomic between two FIAT lines or byte codes.")


def main():
    na = []
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for line in f:
            p = json.loads(line)
            if p["id"] not in T:
                na.append({"property": p["id"], "reason": "a pure function of the input of one undisturbed call: no schedule, fault, clock, history or second party can influence it, "
                           "so a simulator has nothing to decide; where it has to survive disturbance it is part of C14"})
    m = {"version": 1, "setup_cmd": "bash /verif/tools/setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks in /repo: the simulator preempts, fails and observes the unmodified library through sys.monitoring and standard library seams (sim/boot.py)",
                   "source_commits": []},
         "checks": [{"property": p, "quick_cmd": "bash /verif/check %s quick" % p, "thorough_cmd": "bash /verif/check %s thorough" % p,
                     "evidence_file": "evidence/%s.json" % p, "technique": BASE % T[p], "level": "exploration", "level_note": NOTE} for p in sorted(T)],
         "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
