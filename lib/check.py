"""Check driver: obligations, evidence, verdicts."""
import json, os, sys, time, traceback, importlib
from prog import VERIF, AnalysisBroken
import prog as progmod

class Check:
    def __init__(self, pid, tier='quick'):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.obls = {}       # (rule, where) -> [ok, detail]
        self.counts = {}     # rule -> [instances, failures]
        self.notes = {}
        self.units = []
        self.mins = {}
        self.samples = {}
    def obl(self, ok, rule, where, detail='', construct=''):
        """one obligation instance; `where` = file:line (function)"""
        key = (rule, where, construct)
        c = self.obls.get(key)
        if c is None: self.obls[key] = [bool(ok), detail, 1]
        else:
            c[2] += 1
            if c[0] and not ok: c[0] = False; c[1] = detail
        return ok
    def fail(self, rule, where, detail='', construct=''): self.obl(False, rule, where, detail, construct)
    def need(self, rule, n):
        """analysis is vacuous unless at least n obligations of this rule were examined"""
        self.mins[rule] = n
    def note(self, k, v): self.notes[k] = v
    def engine_stats(self, eng):
        d = self.notes.setdefault('engine', {'functions': 0, 'paths': 0, 'branches': 0, 'calls': 0, 'inlined': 0, 'merges': 0})
        d['functions'] += len(eng.stats['functions'])
        for k in ('paths', 'branches', 'calls', 'inlined', 'merges'): d[k] += eng.stats[k]

def known_findings(pid):
    p = VERIF + '/known_findings.jsonl'
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l: continue
            d = json.loads(l)
            if d.get('property') == pid and d.get('status') == 'known': out.append(d)
    return out

def finish(ck, spec):
    rules = {}
    viol = []
    for (rule, where, construct), (ok, detail, n) in ck.obls.items():
        r = rules.setdefault(rule, {'obligations': 0, 'path_instances': 0, 'violated': 0})
        r['obligations'] += 1; r['path_instances'] += n
        if not ok:
            r['violated'] += 1; viol.append((rule, where, construct, detail))
    for rule, n in ck.mins.items():
        got = rules.get(rule, {'obligations': 0})['obligations']
        if got < n and not viol:
            raise AnalysisBroken(f'rule {rule}: only {got} instances found, at least {n} were confirmed by hand')
    if not rules and not viol:
        raise AnalysisBroken('no obligations generated')
    kf = known_findings(ck.pid)
    unlisted = []
    for v in viol:
        hit = None
        for k in kf:
            if k['rule'] == v[0] and k['construct'] in (v[1] + ' ' + v[2]): hit = k
        if hit: print(f"KNOWN-FINDING: property={ck.pid} {hit['what']}")
        else: unlisted.append(v)
    ev = {
        'property': ck.pid, 'tier': ck.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'other',
        'coverage': {
            'explanation': spec['explanation'],
            'units_analysed': ck.units,
            'rules': rules,
            'obligations': sum(r['obligations'] for r in rules.values()),
            'path_instances': sum(r['path_instances'] for r in rules.values()),
            'samples': [{'rule': k[0], 'where': k[1], 'construct': k[2], 'held': v[0]} for k, v in list(ck.obls.items())[:40]],
            **ck.notes,
        },
        'wall_s': round(time.time() - ck.t0, 2),
        'assumptions': spec.get('assumptions', []),
        'violations': len(unlisted),
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(f'{VERIF}/evidence/{ck.pid}.json', 'w') as f: json.dump(ev, f, indent=1)
    if unlisted:
        rp = f'{VERIF}/evidence/{ck.pid}.violations.txt'
        with open(rp, 'w') as f:
            for rule, where, construct, detail in unlisted:
                f.write(f'rule: {rule}\nwhere: {where}\nconstruct: {construct}\n{detail}\n\n')
        for rule, where, construct, detail in unlisted[:12]:
            print(f'  [{rule}] {where} {construct}: {detail}'[:900])
        print(f'VIOLATION property={ck.pid} replay={rp}')
        return 1
    print(f'OK property={ck.pid} obligations={ev["coverage"]["obligations"]} path_instances={ev["coverage"]["path_instances"]} wall={ev["wall_s"]}s')
    return 0

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    sys.path.insert(0, VERIF + '/rules')
    ck = Check(pid, tier)
    try:
        mod = importlib.import_module(pid.lower())
        mod.check(ck)
        rc = finish(ck, mod.SPEC)
    except AnalysisBroken as e:
        # a violation already established stands even if another rule lost its anchor
        if any(not v[0] for v in ck.obls.values()):
            ck.mins = {}
            print('note: analysis incomplete: ' + str(e)[:500])
            sys.exit(finish(ck, mod.SPEC))
        print('ANALYSIS-BROKEN: ' + str(e)); sys.exit(2)
    except SystemExit: raise
    except Exception:
        traceback.print_exc()
        if any(not v[0] for v in ck.obls.values()):
            ck.mins = {}
            sys.exit(finish(ck, mod.SPEC))
        print('ANALYSIS-BROKEN: internal error'); sys.exit(2)
    sys.exit(rc)

if __name__ == '__main__':
    main()
