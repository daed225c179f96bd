"""Development: run rules over existing facts.  dev.py FACTS C01 C02 ..."""
import json, sys, os, time, importlib, glob
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "rules"))
import facts, lib
from absint import run_in_thread, Limit
def rules():
    t = {}
    for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "rules", "*.py"))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        t.update(getattr(m, "RULES", {}))
    return t
def main():
    R = rules()
    p = facts.Program(sys.argv[1])
    ids = sys.argv[2:] or sorted(R)
    for i in ids:
        t0 = time.time()
        c = lib.Check(p, i)
        try:
            R[i](c)
        except (lib.Broken, Limit) as e:
            c.violations.append(("broken", "", "cannot be established: %s" % e))
        kf = {k["key"] for k in json.load(open(os.path.join(os.path.dirname(__file__), "..", "known-findings.json")))["findings"] if k["property"] == i}
        c.violations = [v for v in c.violations if v[0] not in kf]
        print(i, "VIOLATED" if c.violations else "ok", "%d obligations, %d paths, %d states, %d fns, %.2fs" % (len(c.obligations), c.npaths, c.nstates, len(c.fns), time.time() - t0))
        for k, l, m in c.violations:
            print("    ", l, m[:600])
if __name__ == "__main__":
    run_in_thread(main)
