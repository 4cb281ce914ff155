import json, os, shutil, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = os.cpu_count() or 4
def builddir(name):
    d = os.environ.get("ZCM_SIM_BUILD", VERIF + "/build") + "/" + name
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d); return d
def replaypath(prop, tag):
    os.makedirs(VERIF + "/replays", exist_ok=True); return f"{VERIF}/replays/{prop}-{tag}.replay"
def known():
    """listed findings that are not repaired: 'known: property=<id> kind=<..> where=<..>' -> [(id, kind, where, line)]"""
    r = []
    try:
        for l in open(VERIF + "/KNOWN_FINDINGS.txt"):
            l = l.strip()
            if l.startswith("known:"):
                f = dict(x.split("=", 1) for x in l[6:].split("\t") if "=" in x); r.append((f["property"].strip(), f.get("kind", "").strip(), f.get("where", "").strip(), l))
    except OSError: pass
    return r
