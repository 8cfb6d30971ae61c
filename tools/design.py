"""Writes DESIGN.md: tools/design_head.md, one section per property from the catalog, the check modules and NOTES below,
the seeded changes (seeded/*/meta.json) and the findings (known_findings.json).  Run: python3 tools/design.py (in /verif)."""
import ast
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from mc.catalog import P          # noqa: E402
from tools.design_notes import NOTES  # noqa: E402


def constants(pid):
    f = V / 'mc' / 'checks' / f'{pid.lower()}.py'
    out = {}
    if f.exists():
        for n in ast.parse(f.read_text()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUND', 'ASSUMPTIONS'):
                out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    text = [(V / 'tools' / 'design_head.md').read_text().rstrip(), '', '## 3. Properties', '']
    seeds = {}
    for m in sorted((V / 'seeded').glob('*/meta.json')):
        d = json.loads(m.read_text())
        seeds.setdefault(d['property'], []).append((m.parent.name, d['needs'], d['what_it_breaks']))
    findings = json.loads((V / 'known_findings.json').read_text())
    for p in P:
        c = constants(p['pid'])
        note = NOTES.get(p['pid'], {})
        text += [f"### {p['pid']} {p['title']}", '', p['statement'], '']
        if not p['claimed']:
            text += [f"Not applicable: {p['na']}", '']
            continue
        text += [f"*What is explored.* {c.get('BOUND', '')}.", '']
        for k, t in (('states', 'States and transitions.'), ('oracle', 'Oracle and conformance.'), ('cost', 'Cost.'), ('limits', 'Not reached.'),
                     ('corrected', 'False alarms corrected.')):
            if note.get(k):
                text += [f'*{t}* {note[k]}', '']
        text += [f"*Beyond the tests.* {p['why']}", '']
        if c.get('ASSUMPTIONS'):
            text += ['*Assumptions.* ' + '; '.join(c['ASSUMPTIONS']) + '.', '']
        mine = [f for f in findings if f'property={p["pid"]} ' in f['entry']]
        if mine:
            text += ['*Defects found in the pinned tree.*', '']
            text += [f"- {f['entry']}" for f in mine] + ['']
        if seeds.get(p['pid']):
            text += ['*Planted changes (all caught by this check, quick tier, unless noted).*', '']
            text += [f'- `{i}`: {b} (needs: {n}){note.get("missed", {}).get(i, "")}' for i, n, b in seeds[p['pid']]] + ['']
    (V / 'DESIGN.md').write_text('\n'.join(text))


main()
