"""Check runner: exhaustive case enumeration over worker processes, evidence, violations, known findings.

A check is a module with
    PROPERTY  = "Cxx"
    def spaces(tier) -> list[Space]
A Space has a name, a (re-startable) generator of picklable case descriptions, and run(case, rec) which
executes one case against the code in /repo and reports on `rec`.
"""
from __future__ import annotations

import hashlib
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_NPROC", str(os.cpu_count() or 4)))
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")

sys.setrecursionlimit(10000)


class CaseTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout()


class Rec:
    """Collects what one case (or chunk of cases) covered."""

    def __init__(self):
        self.counts = Counter()
        self.maxima = {}
        self.violations = []
        self.samples = []
        self.obs = Counter()

    def count(self, name, n=1):
        self.counts[name] += n

    def states(self, n):
        self.counts["states"] += n

    def transitions(self, n):
        self.counts["transitions"] += n

    def trace(self, n=1):
        self.counts["traces_validated_against_impl"] += n

    def violation(self, kind, key, detail=None, case=None):
        """kind: symptom class, key: canonical text of the failing input (identifies a finding)."""
        self.violations.append({"kind": kind, "key": key, "detail": detail, "case": case})

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def outcome(self, name, n=1):
        self.obs[name] += n


class Space:
    def __init__(self, name, gen, run, bound, chunk=64, timeout=20.0, serial=False):
        self.name = name
        self.gen = gen  # () -> iterator of cases
        self.run = run  # (case, rec) -> None
        self.bound = bound  # textual description of the bound
        self.chunk = chunk
        self.timeout = timeout
        self.serial = serial


_SPACES = None


def _init_worker():
    # the parser writes its messages to stderr
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def run_case(space, case, rec):
    """One case with a watchdog; an escaping exception of the harness itself is a harness error."""
    use_alarm = space.timeout and hasattr(signal, "setitimer")
    nv = len(rec.violations)
    try:
        if use_alarm:
            # processor time, so that a busy machine does not matter; real time for what waits
            signal.setitimer(signal.ITIMER_PROF, space.timeout)
            signal.setitimer(signal.ITIMER_REAL, 30 + 8 * space.timeout)
        try:
            space.run(case, rec)
        finally:
            if use_alarm:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
    except CaseTimeout:
        key = getattr(space, "key", None)
        rec.violation("no-answer", key(case) if key else _short(case), f"no answer within {space.timeout}s")
    for v in rec.violations[nv:]:
        if v["case"] is None:
            v["case"] = case
        v["space"] = space.name
    rec.count("cases")


def _short(case):
    return case if isinstance(case, str) else json.dumps(case, default=repr, sort_keys=True)


def _work(args):
    idx, chunk = args
    space = _SPACES[idx]
    rec = Rec()
    err = None
    t0 = time.process_time() + sum(os.times()[2:4])
    for case in chunk:
        try:
            run_case(space, case, rec)
        except BaseException as e:
            if isinstance(e, Exception) and _in_package(e):
                # The package failed on input it has to accept (a base program of the check, the compiled form of one):
                # nothing can be shown for this case.
                rec.violation("unexpected-exception", _short(case), "".join(traceback.format_exception(e)[-6:]), case)
                rec.violations[-1]["space"] = space.name
                continue
            # harness failure
            err = "".join(traceback.format_exception(e)) + f"\ncase: {case!r}"
            break
    rec.counts["cpu_ms"] += int(1000 * (time.process_time() + sum(os.times()[2:4]) - t0))
    return idx, rec.counts, rec.violations, rec.samples, rec.obs, err


def _in_package(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(os.path.join(os.path.realpath(REPO), "explorerscript") + os.sep) or tb.tb_frame.f_code.co_filename.startswith(os.path.join(REPO, "explorerscript") + os.sep)


def _chunks(it, n):
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def load_known(prop):
    """known_findings.txt:
        KNOWN-FINDING: property=<id> id=<fid> <what fails>
        case <fid> <kind> <sha1-16 of key>   [<the key, escaped, for the reader>]
        fixed: property=<id> <commit> <what failed>
    """
    findings, cases = {}, {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE, encoding="utf-8") as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith("KNOWN-FINDING: "):
                    rest = line[len("KNOWN-FINDING: "):]
                    p, fid, what = rest.split(" ", 2)
                    findings[fid[3:]] = (p[len("property="):], what)
                elif line.startswith("case "):
                    _, fid, kind, h = line.split(" ")[:4]
                    cases[(kind, h)] = fid
    fids = {fid: what for fid, (p, what) in findings.items() if p == prop}
    return fids, {k: v for k, v in cases.items() if v in fids}


def key_hash(key):
    return hashlib.sha1(key.encode("utf-8", "surrogatepass")).hexdigest()[:16]


def main(module, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    replay = None
    record = False
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--space":
            only = next(it).split(",")
        elif a == "--replay":
            replay = next(it)
        elif a == "--list-unknown":
            record = True
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = module.PROPERTY
    global _SPACES
    if replay:
        return do_replay(module, replay)
    t0 = time.time()
    deadline = t0 + float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "100000"))
    _SPACES = module.spaces(tier)
    if only:
        _SPACES = [s for s in _SPACES if s.name in only]
    total = Rec()
    per_space = {}
    harness_error = None
    truncated = []
    known, known_cases = load_known(prop)
    reproduced = Counter()
    new = []
    samples = []
    max_new = 10**9 if record else 25
    stop = False
    serial = [s for s in _SPACES if s.serial]
    par = [s for s in _SPACES if not s.serial]

    def absorb(idx, counts, violations, smp, obs, err):
        nonlocal harness_error, stop
        s = _SPACES[idx]
        ps = per_space.setdefault(s.name, Counter())
        ps.update(counts)
        total.counts.update(counts)
        for k, v in obs.items():
            total.obs[f"{s.name}:{k}"] += v
        if smp and len([x for x in samples if x["space"] == s.name]) < 2:
            samples.append({"space": s.name, "sample": smp[0]})
        for v in violations:
            h = key_hash(v["key"])
            fid = known_cases.get((v["kind"], h))
            if fid is not None:
                reproduced[fid] += 1
            else:
                new.append(v)
        if len(new) >= max_new:
            stop = True
        if err:
            harness_error = err
            stop = True

    for s in serial:
        if stop:
            break
        idx = _SPACES.index(s)
        _init_worker()
        for chunk in _chunks(iter(s.gen()), 1):
            absorb(*_work((idx, chunk)))
            if stop or time.time() > deadline:
                break
    signal.signal(signal.SIGINT, signal.SIG_DFL)

    if par and not stop:
        ctx = mp.get_context("fork")

        def tasks():
            for s in par:
                idx = _SPACES.index(s)
                for c in _chunks(iter(s.gen()), s.chunk):
                    if stop:
                        return
                    if time.time() > deadline:
                        truncated.append(s.name)
                        break
                    yield idx, c

        # bounded look-ahead: the generator thread must not run away with memory
        sem = __import__("threading").BoundedSemaphore(NPROC * 8)

        def gated():
            for t in tasks():
                sem.acquire()
                yield t

        with ctx.Pool(NPROC, _init_worker) as pool:
            for res in pool.imap_unordered(_work, gated()):
                sem.release()
                absorb(*res)
                if stop:
                    break
            pool.terminate()

    wall = time.time() - t0
    new.sort(key=lambda v: (len(v["key"]), v["kind"], v["key"]))
    cov = {
        "states": total.counts.get("states", 0),
        "transitions": total.counts.get("transitions", 0),
        "traces_validated_against_impl": total.counts.get("traces_validated_against_impl", 0),
        "samples": samples or [{"space": "-", "sample": "none"}],
        "exhaustive": not truncated and not stop,
        "cases": total.counts.get("cases", 0),
        "spaces": [
            {"name": s.name, "bound": s.bound, **{k: per_space.get(s.name, {}).get(k, 0) for k in sorted(per_space.get(s.name, {}))}}
            for s in _SPACES
        ],
        "outcomes": dict(sorted(total.obs.items())),
        "known_findings_reproduced": dict(sorted(reproduced.items())),
    }
    if truncated:
        cov["truncated_by_time"] = sorted(set(truncated))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", f"{prop}.json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(p + ".tmp", p)
    for fid, what in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {what} [{fid}; {reproduced.get(fid, 0)} listed cases reproduced]")
    print(
        f"{prop} {tier}: cases={cov['cases']} states={cov['states']} transitions={cov['transitions']} "
        f"traces={cov['traces_validated_against_impl']} known={sum(reproduced.values())} new={len(new)} wall={wall:.1f}s"
        + (f" TRUNCATED {sorted(set(truncated))}" if truncated else "")
    )
    for s in cov["spaces"]:
        print("  ", s["name"], {k: v for k, v in s.items() if k not in ("name", "bound")})
    if harness_error:
        print("HARNESS ERROR:\n" + harness_error)
        if not new:
            return 2
    outdir = os.path.join(VERIF, "out", prop)
    if record:
        os.makedirs(outdir, exist_ok=True)
        open(os.path.join(outdir, "unknown.jsonl"), "w").close()
    if new:
        os.makedirs(outdir, exist_ok=True)
        if record:
            with open(os.path.join(outdir, "unknown.jsonl"), "w") as f:
                for v in new:
                    f.write(json.dumps({**v, "hash": key_hash(v["key"])}, default=repr) + "\n")
        seen = set()
        for v in new[:25]:
            h = key_hash(v["key"] + v["kind"])
            if h in seen:
                continue
            seen.add(h)
            path = os.path.join(outdir, f"{v['kind']}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, **v}, f, indent=1, default=repr)
            print(f"--- {v['kind']} ({v['space']}): {str(v['key'])[:300]}")
            if v["detail"]:
                print("    " + str(v["detail"])[:1500].replace("\n", "\n    "))
            print(f"VIOLATION property={prop} replay={path}")
        print(f"{len(new)} violations not listed in known_findings.txt")
        return 1
    return 0


def _detuple(x):
    """JSON turned the tuples of a case into lists; cases only use tuples."""
    if isinstance(x, list):
        return tuple(_detuple(y) for y in x)
    if isinstance(x, dict):
        return {k: _detuple(v) for k, v in x.items()}
    return x


def do_replay(module, path):
    with open(path) as f:
        v = json.load(f)
    signal.signal(signal.SIGALRM, _on_alarm)
    for s in module.spaces(v.get("tier", "quick")):
        if s.name == v["space"]:
            rec = Rec()
            run_case(s, _detuple(v["case"]), rec)
            for w in rec.violations:
                print(f"REPRODUCED {w['kind']}: {w['key']}\n{w['detail']}")
            print("counts", dict(rec.counts))
            return 1 if rec.violations else 0
    print("unknown space", v["space"])
    return 2
