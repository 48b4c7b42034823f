"""One worker process: loads the library under test and executes cases."""
import importlib, json, os, sys, hashlib, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tv.gen import Src, Violation, Discard  # noqa


def main():
    prop, libs, errfile = sys.argv[1], json.loads(sys.argv[2]), sys.argv[3]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    fd = os.open(errfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    mod = importlib.import_module("props." + prop)
    env = mod.setup(libs)
    env_err = fd

    def trim():
        # keep the log small between cases
        try:
            if os.fstat(env_err).st_size > 4 << 20:
                os.ftruncate(env_err, 0)
                os.lseek(env_err, 0, 0)
        except OSError:
            pass

    def one(target, src):
        try:
            info = mod.TARGETS[target](src, env)
            return {"ok": True, "info": info or {}}
        except Discard:
            return {"ok": True, "discard": True, "info": {}}
        except Violation as e:
            return {"ok": False, "msg": str(e), "sig": e.sig}
        except Exception as e:  # harness error or unexpected API failure
            tb = traceback.format_exc(limit=-6)
            return {"ok": False, "msg": "unexpected %s: %s" % (type(e).__name__, str(e)[:1500]), "sig": None,
                    "tb": tb[-3000:]}

    out.write("READY\n")
    for line in sys.stdin:
        cmd = json.loads(line)
        if cmd["c"] == "one":
            src = Src(choices=cmd["choices"]) if "choices" in cmd else Src(seed=cmd["seed"])
            src.log = os.open(errfile + ".choices", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            r = one(cmd["target"], src)
            os.close(src.log)
            r["choices"] = src.rec
            out.write("R " + json.dumps(r, default=str) + "\n")
        elif cmd["c"] == "batch":
            agg = new = None

            def reset():
                return {"n": 0, "disc": 0, "labels": {}, "nt": [], "samples": [], "known": {}}
            agg = reset()
            known = set(cmd["known"])
            sampled = 0
            for i, target, seed in cmd["cases"]:
                out.write("S %d\n" % i)
                src = Src(seed=seed)
                r = one(target, src)
                if not r["ok"]:
                    if r.get("sig") and r["sig"] in known:
                        agg["known"][r["sig"]] = agg["known"].get(r["sig"], 0) + 1
                        continue
                    r["choices"] = src.rec
                    r["i"], r["target"] = i, target
                    out.write("V " + json.dumps(r, default=str) + "\n")
                    continue
                agg["n"] += 1
                if r.get("discard"):
                    agg["disc"] += 1
                    continue
                info = r["info"]
                for l in [target] + list(info.get("labels", ())):
                    agg["labels"][l] = agg["labels"].get(l, 0) + 1
                if info.get("nt", True):
                    d = info.get("desc", "")
                    agg["nt"].append(hashlib.sha1((target + str(d)).encode()).hexdigest()[:14])
                    if sampled < 4 and (i // 8) % 3 == 0:
                        sampled += 1
                        agg["samples"].append("%s: %s" % (target, str(d)[:400]))
                if agg["n"] % 256 == 0:
                    out.write("A " + json.dumps(agg) + "\n")
                    agg = reset()
                    trim()
            out.write("A " + json.dumps(agg) + "\n")
            out.write("D\n")
        trim()


main()
