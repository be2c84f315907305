import argparse, importlib, json, os, sys, time, traceback
from . import env, core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier_pos", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--cases", type=int, default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VF_JOBS", "8")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier or a.tier_pos or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.stdout = env.null
    prop = a.prop.upper()
    if prop == "SETUP":
        # nothing to build: the code under test is imported from its working tree by every check
        try:
            env.load_clf()
            env.say("setup: aces.clf imports")
        except Exception as e:
            env.say("setup: aces.clf does not import: %s" % e)
        return 0
    t0 = time.time()
    try:
        mod = importlib.import_module("vf.props.%s" % prop.lower())
        mod.TIER = tier
    except core.Violation as v:
        class M: pass
        M.PROP, M.RULE = prop, "import"
        return core.report(M, tier, seed, t0, [], [dict(key=v.key, msg=v.msg, case=None, index=-1, worker=0, workers=1)], {}, "")
    except Exception:
        env.say(traceback.format_exc())
        return 2
    if a.replay:
        d = json.load(open(a.replay))
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        tmp = "/tmp/vf-replay-%d" % os.getpid()
        os.makedirs(tmp)
        try:
            if hasattr(mod, "setup"):
                mod.setup()
            case = d["case"] if d["case"] is not None else mod.gen(core.case_rng(d["seed"], prop, d["index"]), d["tier"], d["index"])
            try:
                core.run_one(mod, case, core.Ctx(tmp), 600)
                env.say("replay: single case holds; running the worker's whole prefix")
                core._clean(tmp)
                for i in range(d["worker"], d["index"] + 1, d["workers"]):
                    try:
                        core.run_one(mod, mod.gen(core.case_rng(d["seed"], prop, i), d["tier"], i), core.Ctx(tmp), 600)
                    except core.Skip:
                        pass
                    core._clean(tmp)
                env.say("replay: holds")
                return 0
            except core.Violation as v:
                env.say("replay: %s" % v)
                env.say("VIOLATION property=%s replay=%s" % (prop, a.replay))
                return 1
            except Exception as e:
                env.say(traceback.format_exc())
                if any(f.filename.startswith(env.REPO + "/") for f in traceback.extract_tb(sys.exc_info()[2])):
                    env.say("VIOLATION property=%s replay=%s" % (prop, a.replay))
                    return 1
                return 2
        finally:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
    return core.main(mod, tier, seed, a.jobs, a.cases)


if __name__ == "__main__":
    rc = main()
    env.real_stdout.flush()
    os._exit(rc)
