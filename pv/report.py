"""Obligation collection, known findings, evidence."""
import json, os, sys, time, traceback
from .load import VERIF, REPO, AnalysisError, load

EVID = os.environ.get("PION_EVID", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obs = {}          # key -> dict
        self.stats = {}
        self.rules = []
        self.assumptions = []
        self.mins = {}

    def rule(self, text):
        if text not in self.rules: self.rules.append(text)

    def ob(self, key, ok, where="", msg="", detail=None):
        """one obligation instance; several evaluations of a key are and-ed"""
        o = self.obs.get(key)
        if o is None:
            o = self.obs[key] = dict(key=key, ok=True, where=where, msg=msg, detail=None, n=0)
        o['n'] += 1
        if not ok and o['ok']:
            o['ok'] = False
            o['where'], o['msg'], o['detail'] = where or o['where'], msg or o['msg'], detail

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def floor(self, name, have, least):
        """a rule that matched less than this has lost its anchor"""
        self.mins[name] = (have, least)

    def engine(self, E):
        for k, v in E.stats.items():
            if isinstance(v, set):
                s = self.stats.setdefault('functions_analysed', set()); s |= v
            else: self.count('abstract_' + k, v)


def where(f, n=None):
    l = (n or {}).get('l') if isinstance(n, dict) else n
    return "%s:%s (%s)" % (f.get('rel', f.get('file')), l or f.get('line'), f.get('sfn', f.get('fn')))


def main(pid, tier, fn):
    t0 = time.time()
    R = Report(pid)
    try:
        prog = load()
        fn(prog, R, tier)
        for k, (have, least) in R.mins.items():
            if have < least and all(o['ok'] for o in R.obs.values()):
                raise AnalysisError("rule '%s' matched %d constructs, expected at least %d: its anchor has gone" % (k, have, least))
        if not R.obs: raise AnalysisError("no obligation was generated")
    except AnalysisError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s internal error of the analysis" % pid)
        return 2
    known = {}
    if os.path.exists(KNOWN):
        for k in json.load(open(KNOWN)).get("findings", []):
            if k["property"] == pid: known[k["key"]] = k
    bad = [o for o in R.obs.values() if not o['ok']]
    new = [o for o in bad if o['key'] not in known]
    rep = os.path.join(EVID, pid + ".violation.txt")
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    if os.path.exists(rep): os.unlink(rep)
    for o in bad:
        if o['key'] in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[o['key']]["what"], o['where']))
    if new:
        with open(rep, "w") as fh:
            fh.write("property %s\n" % pid)
            for r in R.rules: fh.write("rule: %s\n" % r)
            for o in new:
                fh.write("\nobligation: %s\nat: %s\nproblem: %s\n" % (o['key'], o['where'], o['msg']))
                if o['detail']: fh.write("detail: %s\n" % (o['detail'] if isinstance(o['detail'], str) else json.dumps(o['detail'], indent=1, default=str)))
        for o in new[:12]: print("  %s: %s  [%s]" % (o['where'], o['msg'], o['key']))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
    st = {k: (len(v) if isinstance(v, set) else v) for k, v in R.stats.items()}
    keys = sorted(R.obs)
    step = max(1, len(keys) // 12)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
              coverage=dict(explanation="Static decision over the type-checked program of the current tree: " + " | ".join(R.rules),
                            obligations=len(R.obs), discharged=len(R.obs) - len(bad),
                            evaluations=sum(o['n'] for o in R.obs.values()),
                            translation_units=len(prog.tus), functions_in_program=len(prog.funcs),
                            measured=st, floors={k: {"matched": a, "least": b} for k, (a, b) in R.mins.items()},
                            known_findings=[o['key'] for o in bad if o['key'] in known],
                            samples=[dict(obligation=k, at=R.obs[k]['where'], held=R.obs[k]['ok']) for k in keys[::step]][:14]),
              assumptions=R.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("property=%s obligations=%d discharged=%d known=%d new_violations=%d (%.1fs)" % (
        pid, len(R.obs), len(R.obs) - len(bad), len(bad) - len(new), len(new), time.time() - t0))
    return 1 if new else 0
