"""try.py CHECK N [SEED] [MAKE]: runs N scenarios of a check's generator and prints what is rejected."""
import importlib.util, json, random, sys, time
sys.path.insert(0, "/verif/lib")
chk, n = sys.argv[1], int(sys.argv[2])
seed = sys.argv[3] if len(sys.argv) > 3 else "5"
make = sys.argv[4] if len(sys.argv) > 4 else "make"
spec = importlib.util.spec_from_file_location(chk, "/verif/checks/%s.py" % chk)
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
import vlib
rng = random.Random(seed)
t = time.time()
mod, runner = getattr(m, "TRY", {}).get(make, ("TrSim", "run_sim"))
if hasattr(m, "scenarios"):
    (mod, runner), sc = m.TRY[make], m.scenarios(rng, n)
else:
    sc = [m.attempt(rng, getattr(m, make)) for _ in range(n)]
t1 = time.time()
c = vlib.Check(chk)
c.conform(mod, sc, getattr(m, runner) if isinstance(runner, str) else runner, getattr(m, "CONSTS", ""))
print("gen %.1f total %.1f" % (t1 - t, time.time() - t), c.phases, c.cov["states"], "violations", len(c.violations))
json.dump([rp for w, rp in c.violations], open("/tmp/viol.json", "w"))
for w, rp in c.violations:
    print(w, "np", rp["scenario"].get("np"), rp["why"][:1500] or json.dumps(rp["rejected"])[:1800])
