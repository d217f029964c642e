"""Runs one check: generation in parallel workers, shrinking, replay, evidence."""
import collections, hashlib, json, multiprocessing as mp, os, queue, random, shutil, signal, sys, tempfile, time, traceback
from hypothesis import given, settings, seed as hseed, HealthCheck, Phase, Verbosity
from hypothesis.errors import HypothesisException
from . import build

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOBODY = 65534


class Violation(Exception):
    def __init__(self, msg, kind="wrong"):
        super().__init__(msg)
        self.kind = kind          # wrong | crash | hang


class Result:
    __slots__ = ("labels", "nontrivial")
    def __init__(self, labels=(), nontrivial=True):
        self.labels, self.nontrivial = labels, nontrivial


class Check:
    pid = None
    builds = ("unit",)
    quick, thorough = 2000, 40000      # cases over all workers
    batch = 200                        # cases per fresh process of the code under test
    workers = 8
    replays = 3                        # runs of one failing case
    soft_cap = {"quick": 240, "thorough": 5400}
    shrink_s = 25
    shrink = True
    rule = ""
    assumptions = []
    level = "exploration"
    reset_each = False

    def strategy(self, tier):
        raise NotImplementedError
    def open(self, ctx):
        raise NotImplementedError
    def run(self, env, case):
        raise NotImplementedError


class Ctx:
    def __init__(self, bins, scratch, tier, slow=1):
        self.bins, self.scratch, self.tier, self.slow = bins, scratch, tier, slow
        self.n = 0
    def fresh(self):
        """A fresh directory owned by the unprivileged user."""
        self.n += 1
        d = os.path.join(self.scratch, "e%d" % self.n)
        os.makedirs(d)
        own(d)
        return d


def own(p):
    try:
        os.chown(p, NOBODY, NOBODY)
    except OSError:
        pass


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def derive(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


class Holder:
    def __init__(self, check, ctx):
        self.check, self.ctx, self.env, self.hist = check, ctx, None, []
    def get(self):
        if self.env is None:
            self.env = self.check.open(self.ctx)
            self.hist = []
        return self.env
    def drop(self):
        if self.env is not None:
            e, self.env = self.env, None
            try:
                e.close()
            except Exception:
                pass
        # the files of this environment are not needed any more
        for x in os.listdir(self.ctx.scratch):
            shutil.rmtree(os.path.join(self.ctx.scratch, x), ignore_errors=True)


def worker(check, bins, scratch, tier, base_seed, wid, n_cases, stop, q, t_end):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    random.seed(base_seed)
    os.makedirs(scratch)
    os.chmod(scratch, 0o755)
    ctx = Ctx(bins, scratch, tier)
    st = dict(evaluations=0, labels=collections.Counter(), nontrivial=set(), samples=[], capped=False, shrink_runs=0)
    fail = None
    try:
        done = b = 0
        while done < n_cases and not stop.is_set():
            if time.time() > t_end:
                st["capped"] = True
                break
            size = min(check.batch, n_cases - done)
            h = Holder(check, ctx)
            box = dict(fail=None, until=None)

            def body(case):
                if box["until"] is not None and time.time() > box["until"]:
                    return
                if box["fail"] is None and (stop.is_set() or time.time() > t_end):
                    return
                env = h.get()
                try:
                    r = check.run(env, case)
                except Violation as v:
                    hist = h.hist[-400:]
                    h.drop()
                    key = len(canon(case))
                    if box["fail"] is None or key <= box["fail"][0]:
                        box["fail"] = (key, json.loads(canon(case)), hist if box["fail"] is None else box["fail"][2], str(v), v.kind,
                                       json.loads(canon(case)) if box["fail"] is None else box["fail"][5])
                    if box["until"] is None:
                        box["until"] = time.time() + (check.shrink_s if check.shrink else 0)
                        stop.set()
                    raise
                h.hist.append(json.loads(canon(case)))
                if check.reset_each:
                    h.drop()
                if box["fail"] is not None:
                    st["shrink_runs"] += 1
                    return
                st["evaluations"] += 1
                for l in r.labels:
                    st["labels"][l] += 1
                if r.nontrivial:
                    c = canon(case)
                    st["nontrivial"].add(hashlib.md5(c.encode()).digest()[:10])
                    k = len(st["nontrivial"])
                    if k in (2, 20, 200, 2000) and len(st["samples"]) < 6:
                        st["samples"].append(c[:700])
            test = settings(max_examples=size, database=None, deadline=None, verbosity=Verbosity.quiet,
                            suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                            phases=(Phase.generate, Phase.shrink) if check.shrink else (Phase.generate,), print_blob=False)(
                hseed(derive(base_seed, check.pid, wid, b))(given(check.strategy(tier))(body)))
            try:
                test()
            except Violation:
                pass
            except HypothesisException:
                if box["fail"] is None:
                    raise
            except BaseException as e:
                # Hypothesis reports flakiness as an exception group
                if box["fail"] is None:
                    raise
            h.drop()
            done += size
            b += 1
            if box["fail"]:
                fail = box["fail"]
                break
    except BaseException:
        q.put(("error", wid, traceback.format_exc()))
        return
    st["nontrivial"] = list(st["nontrivial"])
    st["labels"] = dict(st["labels"])
    q.put(("done", wid, st, fail))


def sample(strategy, n, seed):
    """n generated values"""
    out = []

    def body(v):
        out.append(json.loads(canon(v)))
    settings(max_examples=n, database=None, deadline=None, verbosity=Verbosity.quiet, suppress_health_check=list(HealthCheck), phases=(Phase.generate,))(hseed(seed)(given(strategy)(body)))()
    return out[:n]


def run_seq(check, ctx, cases):
    """Runs cases in a fresh environment; returns the violation of the last one, or of an earlier one."""
    h = Holder(check, ctx)
    try:
        for c in cases:
            env = h.get()
            check.run(env, c)
    except Violation as v:
        return v
    finally:
        h.drop()
    return None


def campaign_of(check, bins, top, tier, cases, log):
    """Runs (label, case) one after another, up to the first that fails"""
    ctx = Ctx(bins, os.path.join(top, "campaign"), tier)
    os.makedirs(ctx.scratch)
    os.chmod(ctx.scratch, 0o755)
    for label, c in cases:
        v = run_seq(check, ctx, [c])
        log("%s: %s" % (label, "failing" if v else "ok"))
        if v:
            return [(len(canon(c)), c, [], str(v), v.kind, c)]
    return []


def confirm(check, bins, scratch, tier, fail, log):
    _, case, hist, msg, kind, first = fail
    os.makedirs(scratch, exist_ok=True)
    os.chmod(scratch, 0o755)
    ctx = Ctx(bins, scratch, tier, slow=2 if kind == "hang" else 1)
    for what, seq in (("case", [case]), ("case", [first]), ("history", hist + [first])):
        hits, last = 0, None
        t0 = time.time()
        for i in range(check.replays):
            v = run_seq(check, ctx, seq)
            if v:
                hits, last = hits + 1, v
                if hits >= 3 or (hits and check.replays > 3):
                    break
            if time.time() - t0 > 90:
                break
        log("replay of the %s (%d cases): %d of %d runs fail" % (what, len(seq), hits, i + 1))
        if hits:
            return dict(cases=seq, hits=hits, runs=i + 1, message=str(last), kind=last.kind)
    return None


def minimise_history(check, bins, scratch, tier, seq, deadline):
    """Delta debugging of the history before the failing case."""
    ctx = Ctx(bins, scratch, tier)
    cur, n = seq[:-1], 2
    while cur and time.time() < deadline:
        size = max(1, len(cur) // n)
        for i in range(0, len(cur), size):
            cand = cur[:i] + cur[i + size:]
            if time.time() > deadline:
                break
            if run_seq(check, ctx, cand + [seq[-1]]):
                cur, n = cand, max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(cur), n * 2)
    return cur + [seq[-1]]


def make_scratch():
    d = tempfile.mkdtemp(prefix="wvcheck-", dir="/tmp")
    os.chmod(d, 0o755)
    return d


def run_check(check, tier, seed):
    t0 = time.time()
    log = lambda m: print("[%s %6.1fs] %s" % (check.pid, time.time() - t0, m), flush=True)
    top = make_scratch()
    try:
        return _run(check, tier, seed, top, t0, log)
    finally:
        if top.startswith("/tmp/wvcheck-"):
            shutil.rmtree(top, ignore_errors=True)


def _run(check, tier, seed, top, t0, log):
    bins = {k: build.build(k, top) for k in check.builds}
    log("built " + ", ".join(check.builds))
    check.prepare(bins, top) if hasattr(check, "prepare") else None
    total = check.quick if tier == "quick" else check.thorough
    total = int(total * float(os.environ.get("WV_SCALE", "1")))
    agg = dict(evaluations=0, labels=collections.Counter(), nontrivial=set(), samples=[], capped=False, shrink_runs=0)
    unconfirmed, confirmed = [], None
    found, extra = check.campaign(bins, top, tier, seed, log) if hasattr(check, "campaign") else ([], {})
    for f in found:
        log("failing case (%s): %s" % (f[4], f[3][:1500]))
        confirmed = confirm(check, bins, os.path.join(top, "c"), tier, f, log)
        if confirmed:
            break
    for rnd in range(0 if confirmed else 3):
        stop, q = mp.Event(), mp.Queue()
        per = [total // check.workers + (1 if i < total % check.workers else 0) for i in range(check.workers)]
        t_end = t0 + check.soft_cap[tier] if rnd == 0 else min(time.time() + 120, t0 + check.soft_cap[tier] + 120)
        ps = [mp.Process(target=worker, args=(check, bins, os.path.join(top, "r%dw%d" % (rnd, i)), tier, derive(seed, rnd), i, n, stop, q, t_end))
              for i, n in enumerate(per) if n]
        for p in ps:
            p.start()
        fails, left = [], len(ps)
        while left:
            try:
                m = q.get(timeout=5)
            except queue.Empty:
                if not any(p.is_alive() for p in ps) and q.empty():
                    raise RuntimeError("a worker died")
                continue
            left -= 1
            if m[0] == "error":
                stop.set()
                for p in ps:
                    p.terminate()
                raise RuntimeError("worker %d: %s" % (m[1], m[2]))
            st = m[2]
            agg["evaluations"] += st["evaluations"]
            agg["shrink_runs"] += st["shrink_runs"]
            agg["labels"].update(st["labels"])
            agg["nontrivial"].update(map(bytes, st["nontrivial"]))
            agg["samples"] += st["samples"]
            agg["capped"] |= st["capped"]
            if m[3]:
                fails.append(m[3])
        for p in ps:
            p.join()
        if not fails:
            break
        fails.sort(key=lambda f: (f[4] == "hang", f[0]))
        for f in fails:
            log("failing case (%s): %s" % (f[4], f[3][:1500]))
            confirmed = confirm(check, bins, os.path.join(top, "c"), tier, f, log)
            if confirmed:
                break
            unconfirmed.append(f)
        if confirmed:
            break
        if sum(f[4] != "hang" for f in unconfirmed) >= 2:
            f = [f for f in unconfirmed if f[4] != "hang"][0]
            confirmed = dict(cases=f[2] + [f[5]], hits=0, runs=check.replays, message=f[3] + " (seen in %d independent runs)" % len(unconfirmed), kind=f[4])
            break
        log("not reproduced; exploring again")
    samples = [json.loads(s) if len(s) < 700 else s + "..." for s in agg["samples"][:8]]
    cov = dict(evaluations=agg["evaluations"], distinct_nontrivial=len(agg["nontrivial"]), rule=check.rule,
               samples=samples or ["none"], labels=dict(sorted(agg["labels"].items())), shrink_runs=agg["shrink_runs"],
               stopped_by_time=agg["capped"], not_reproduced=[f[3][:300] for f in unconfirmed])
    cov.update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.pid + ".json"), "w") as f:
        json.dump(dict(property=check.pid, tier=tier, seed=seed, level=check.level, coverage=cov,
                       assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=1 if confirmed else 0), f, indent=1)
    log("%d cases, %d distinct non-trivial, labels %s" % (agg["evaluations"], len(agg["nontrivial"]), dict(agg["labels"].most_common(40))))
    if confirmed:
        seq = confirmed["cases"]
        if len(seq) > 1 and confirmed["hits"]:
            seq = minimise_history(check, bins, os.path.join(top, "m"), tier, seq, time.time() + 30) if os.makedirs(os.path.join(top, "m"), exist_ok=True) is None else seq
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", check.pid + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=check.pid, message=confirmed["message"], kind=confirmed["kind"], tier=tier, cases=seq), f, indent=1)
        print(confirmed["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (check.pid, path), flush=True)
        return 1
    return 0


def replay(check, path):
    d = json.load(open(path))
    top = make_scratch()
    try:
        bins = {k: build.build(k, top) for k in check.builds}
        if hasattr(check, "prepare"):
            check.prepare(bins, top)
        os.makedirs(os.path.join(top, "c"))
        os.chmod(os.path.join(top, "c"), 0o755)
        for i in range(check.replays):
            v = run_seq(check, Ctx(bins, os.path.join(top, "c"), d.get("tier", "quick")), d["cases"])
            print("run %d: %s" % (i + 1, "ok" if not v else v))
            if v:
                print("VIOLATION property=%s replay=%s" % (check.pid, path))
                return 1
        return 0
    finally:
        if top.startswith("/tmp/wvcheck-"):
            shutil.rmtree(top, ignore_errors=True)
