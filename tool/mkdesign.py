"""DESIGN.md = tool/design_head.md + one section per property (from rules/pNN.py SPEC, evidence and props) + tool/design_tail.md + catch matrix."""
import os, sys, json, importlib, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/lib', V + '/rules']
import props
out = [open(V + '/tool/design_head.md').read().rstrip(), '', '## Properties', '']
for p in sorted(props.P, key=lambda p: p['id']):
    pid = p['id']; m = importlib.import_module(pid.lower())
    S = getattr(m, 'SPEC', {})
    src = open(m.__file__).read()
    rules = sorted(set(re.findall(r"need\('([a-z0-9:._-]+)'", src)) | set(re.findall(r"'([a-z]+:[a-z0-9._-]+)'", src)))
    try: units = json.load(open(V + f'/evidence/{pid}.json'))['coverage'].get('units_analysed', [])
    except Exception: units = []
    out += [f"### {pid} {p['title']}", '', f"*Quantifies over* {p['qtext']}. *Beyond tests:* {p['why']}.", '']
    if S.get('explanation'): out += [f"*How it is decided.* {S['explanation']}", '']
    out += [f"*Rules:* {', '.join('`%s`' % r for r in rules)}. *Analysed:* {', '.join(units) or ', '.join(p['files'])}."]
    out += [f"*Bounds:* {p['note']}." + (' *Assumes:* ' + '; '.join(S['assumptions']) + '.' if S.get('assumptions') else '')]
    seeds = []
    for s in sorted(os.listdir(V + '/seeded')):
        d = json.load(open(f'{V}/seeded/{s}/meta.json'))
        if d['property'] == pid: seeds.append(f"{s} ({d['what_it_breaks']}; needs: {d['needs']})")
    if seeds: out += ['', '*Planted bugs:* ' + '; '.join(seeds) + '.']
    out += ['']
out += ['## Not applicable', '']
for p in props.NA: out += [f"* **{p['id']} {p['title']}** — {p['reason']}."]
out += ['', '## Genuine defects found', '']
for l in open(V + '/known_findings.jsonl'):
    d = json.loads(l); out += [f"* {d['construct']}: {d['what']}"]
out += ['', open(V + '/tool/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
