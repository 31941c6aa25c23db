import sys, os, importlib
sys.path.insert(0, "/verif/vc"); sys.path.insert(0,"/verif/vc/units")
import core, os
m = importlib.import_module(sys.argv[1])
sel = sys.argv[2:] 
for n, f in m.UNITS:
    if sel and not any(s in n for s in sel): continue
    o = core.run_unit(n, f)
    print("==", n, o.status, o.reason[-int(os.environ.get("R","700")):], "%.1fs"%o.secs)
    import os
    if o.status=="proved" and not os.environ.get("ALL"):
        from collections import Counter
        print("   ", len(o.obls), "obligations", dict(Counter(b["backend"] for b in o.obls)))
        continue
    for b in o.obls:
        if b["ok"] and not os.environ.get("ALL"): continue
        print("   ", "ok " if b["ok"] else "FAIL", b["backend"], b["secs"], b["name"], "" if b["ok"] else b["detail"][:int(os.environ.get('W','300'))])
