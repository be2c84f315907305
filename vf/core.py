"""Case runner: deterministic case generation, sharded workers, verdicts, evidence, replay files."""
import hashlib, json, os, random, select, signal, sys, time, traceback, shutil, tempfile, math
from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, "%s: %s" % (key, msg))
        self.key, self.msg = key, msg


class Skip(Exception):
    "The generated case turned out to be outside the property's domain."


class Timeout(BaseException):
    pass


class Ctx:
    """What a case run reports: observation counters, signatures of distinct behaviours, scratch directory."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.counts = {}
        self.sigs = set()
        self.nontrivial = False
        self.sig = None

    def obs(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, *sig):
        "a distinct behaviour/state was observed"
        self.sigs.add(repr(sig))

    def path(self, name):
        return os.path.join(self.tmp, name)


def fail(key, msg, *args):
    raise Violation(key, msg % args if args else msg)


def call(key, fn, *a, **k):
    """Calls the code under test on an input inside its domain: any exception is a violation."""
    try:
        return fn(*a, **k)
    except (Violation, Skip):
        raise
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        raise Violation(key + ":raises", "%s: %s at %s" % (type(e).__name__, str(e)[:300], where))
    except SystemExit as e:
        raise Violation(key + ":exits", "SystemExit(%s)" % e.code)


def case_rng(seed, prop, index):
    return random.Random("%s|%s|%d" % (seed, prop, index))


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(None, 2)[2]
                if rest.startswith("key="):
                    key, _, text = rest[4:].partition(" ")
                    out[key] = text
    return out


def _clean(tmp):
    for f in os.listdir(tmp):
        q = os.path.join(tmp, f)
        if os.path.isdir(q) and not os.path.islink(q):
            shutil.rmtree(q, ignore_errors=True)
        else:
            os.unlink(q)


def run_one(mod, case, ctx, limit):
    def onalarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        sys.stdout = env.null
        mod.run(case, ctx)
    finally:
        signal.alarm(0)
        sys.stdout = env.null


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def worker(mod, wid, nworkers, total, seed, tier, deadline, wfd, tmpbase, known):
    tmp = os.path.join(tmpbase, "w%d" % wid)
    os.makedirs(tmp, exist_ok=True)
    ctx = Ctx(tmp)
    done = nontriv = skipped = 0
    hashes, samples, found, cut = set(), [], [], False
    reported = {}
    i = wid
    limit = getattr(mod, "CASE_LIMIT", 150)
    while i < total:
        if time.time() > deadline:
            cut = True
            break
        rng = case_rng(seed, mod.PROP, i)
        case = None
        try:
            case = mod.gen(rng, tier, i)
            ctx.nontrivial = False
            ctx.sig = None
            run_one(mod, case, ctx, limit)
            done += 1
            h = case_hash(case) if ctx.sig is None else ctx.sig
            if ctx.nontrivial and h not in hashes:
                hashes.add(h)
                nontriv += 1
            if len(samples) < 1 and ctx.nontrivial:
                s = json.dumps(case, default=str)
                samples.append(s if len(s) < 1500 else s[:1500] + "...")
        except Skip as e:
            skipped += 1
            ctx.obs("skipped:" + str(e)[:60])
        except (Violation, Timeout) as v:
            if isinstance(v, Timeout):
                try:
                    _clean(tmp)
                    run_one(mod, case, Ctx(tmp), limit)
                    i += nworkers
                    continue
                except Timeout:
                    v = Violation("no-answer", "no result within %d s, twice" % limit)
                except Violation as w:
                    v = w
                except (Skip, Exception):
                    i += nworkers
                    continue
            done += 1
            k = v.key
            if k in known:
                reported[k] = reported.get(k, 0) + 1
            else:
                found.append(dict(key=k, msg=v.msg[:2000], case=case, index=i, worker=wid, workers=nworkers))
                break
        except Exception as e:
            # an exception that passed through the code under test is its answer to an in-domain input
            own = any(f.filename.startswith(env.REPO + "/") for f in traceback.extract_tb(sys.exc_info()[2]))
            key = "raises:" + type(e).__name__ if own else "HARNESS"
            found.append(dict(key=key, msg=traceback.format_exc()[-3000:], case=case, index=i, worker=wid, workers=nworkers))
            break
        finally:
            try:
                _clean(tmp)
            except OSError:
                pass
        i += nworkers
    res = dict(done=done, nontriv=nontriv, skipped=skipped, hashes=sorted(hashes), samples=samples, found=found,
               counts=ctx.counts, sigs=sorted(ctx.sigs), known=reported, cut=cut)
    data = json.dumps(res, default=str).encode()
    while data:
        n = os.write(wfd, data[:65536])
        data = data[n:]
    os.close(wfd)


def main(mod, tier, seed, jobs, cases=None, only=None):
    t0 = time.time()
    total = cases or mod.CASES[tier]
    budget = getattr(mod, "BUDGET", {"quick": 400, "thorough": 1500})[tier]
    deadline = t0 + budget
    known = known_findings(mod.PROP)
    tmpbase = tempfile.mkdtemp(prefix="vf-%s-" % mod.PROP)
    results, procs = [], []
    try:
        try:
            if hasattr(mod, "setup"):
                mod.setup()
        except Violation as v:
            return report(mod, tier, seed, t0, [], [dict(key=v.key, msg=v.msg, case=None, index=-1, worker=0, workers=jobs)], known, tmpbase)
        jobs = min(jobs, max(1, total))
        for w in range(jobs):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    for (_, fd) in procs:
                        os.close(fd)
                    os.setpgid(0, 0)
                    worker(mod, w, jobs, total, seed, tier, deadline, wr, tmpbase, known)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                os._exit(code)
            os.close(wr)
            procs.append((pid, r))
        bufs = {fd: b"" for _, fd in procs}
        open_fds = set(bufs)
        hard = deadline + 2.5 * getattr(mod, "CASE_LIMIT", 150)
        stop = False
        while open_fds:
            rl, _, _ = select.select(list(open_fds), [], [], 1.0)
            for fd in rl:
                d = os.read(fd, 1 << 16)
                if d:
                    bufs[fd] += d
                else:
                    open_fds.discard(fd)
                    try:
                        if json.loads(bufs[fd].decode())["found"]:
                            stop = True
                    except Exception:
                        pass
            if (stop and open_fds) or time.time() > hard:
                # one worker has a witness: end the others
                for (pid, fd) in procs:
                    if fd in open_fds:
                        try:
                            os.killpg(pid, signal.SIGKILL)
                        except OSError:
                            pass
                break
        failed = 0
        for pid, fd in procs:
            _, st = os.waitpid(pid, 0)
            try:
                results.append(json.loads(bufs[fd].decode()))
            except Exception:
                failed += 1
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            os.close(fd)
        found = [f for r in results for f in r["found"]]
        if failed and not found:
            env.say("HARNESS-ERROR property=%s %d workers ended without a result" % (mod.PROP, failed))
            return 2
        return report(mod, tier, seed, t0, results, found, known, tmpbase)
    finally:
        shutil.rmtree(tmpbase, ignore_errors=True)


def report(mod, tier, seed, t0, results, found, known, tmpbase):
    prop = mod.PROP
    counts, sigs, hashes = {}, set(), set()
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(r["sigs"])
        hashes.update(r["hashes"])
    done = sum(r["done"] for r in results)
    samples = [s for r in results for s in r["samples"]][:3]
    for k in sorted(set(k for r in results for k in r["known"])):
        env.say("KNOWN-FINDING: property=%s %s" % (prop, known.get(k, k)))
    harness = [f for f in found if f["key"] == "HARNESS"]
    viol = [f for f in found if f["key"] != "HARNESS"]
    cov = dict(evaluations=done, distinct_nontrivial=len(hashes), rule=mod.RULE, samples=samples or ["(none)"],
               skipped_out_of_domain=sum(r["skipped"] for r in results),
               monitor_observations=counts, distinct_behaviours_seen=len(sigs),
               behaviours=sorted(sigs)[:60], cut_short_by_time=any(r["cut"] for r in results))
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", ["the harness' reference evaluator states the property correctly",
                                                       "float32 rounding differences are admitted through a noise envelope"]),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for n, f in enumerate(viol[:4]):
            path = os.path.join(VERIF, "replays", "%s-%s-%d-%d.json" % (prop, tier, seed, f["index"]))
            with open(path, "w") as fh:
                json.dump(dict(property=prop, tier=tier, seed=seed, **f), fh, default=str)
            env.say("  witness key=%s case=%d: %s" % (f["key"], f["index"], f["msg"][:600]))
            if n == 0:
                first = path
        env.say("VIOLATION property=%s replay=%s" % (prop, first))
        return 1
    if harness:
        env.say("HARNESS-ERROR property=%s case=%s\n%s" % (prop, harness[0]["index"], harness[0]["msg"]))
        return 2
    need = getattr(mod, "NEED", {})
    missing = [k for k in need if counts.get(k, 0) < need[k]]
    if not done or not hashes or missing:
        env.say("INCONCLUSIVE property=%s nothing observed (%d cases, %d non-trivial, missing %s; %s)" % (prop, done, len(hashes), missing, json.dumps(counts)))
        return 2
    env.say("HELD property=%s tier=%s seed=%s cases=%d distinct=%d behaviours=%d observations=%s wall=%.1fs" % (
        prop, tier, seed, done, len(hashes), len(sigs), json.dumps(counts), time.time() - t0))
    return 0
