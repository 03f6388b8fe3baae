"""Writes /verif/DESIGN.md."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'tools')]
from design_text import HEAD, ORACLE, LIMITS, ALARMS, NA, MUTATION   # noqa: E402


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    out = [HEAD, '## 3. Per property\n']
    for p in props:
        pid = p['id']
        if pid not in ORACLE:
            continue
        m = importlib.import_module(f'vf.checks.{pid.lower()}')
        out.append(f'### {pid} {p["title"]}\n')
        oracle, why = ORACLE[pid]
        out.append(f'* **Workload.** {m.RULE}')
        out.append(f'* **Oracle.** {oracle}')
        out.append(f'* **Beyond the tests.** {why}')
        phases = []
        for ph in m.PHASES:
            kind = ph.get('mode') or ph['variant']
            kind = {'none': 'Python only', 'mpi': 'MPI build', 'plain': 'release build',
                    'asan': 'ASan+UBSan', 'tsan': 'TSan',
                    'perturb': 'perturbed'}[kind]
            if ph.get('perturb') and kind != 'perturbed':
                kind += ', perturbed'
            phases.append(f'{kind}: {ph["count"]["quick"]} cases quick, '
                          f'{ph["count"]["thorough"]} thorough')
        out.append(f'* **Bounds.** {"; ".join(phases)}. '
                   f'{len(m.REQUIRED)} situations must have been observed.')
        assumptions = getattr(m, 'ASSUMPTIONS', None)
        if assumptions:
            out.append('* **Assumptions.** ' + ' '.join(assumptions))
        out.append('')
    out.append('''All quick checks take 2 to 60 s each on 8 cores (plus the build, once: about
90 s for all variants); the thorough tier takes minutes to an hour each.
''')
    known = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    out.append('## 4. Defects found in stempy\n')
    out.append('Every entry was shown on the real code by a check, repaired by a '
               '`fix:` commit in /repo, and is in `known_findings.json`; the '
               'checks report them again if they return.\n')
    for k in known['fixed']:
        out.append('* ' + k.replace('fixed: property=', '').strip())
    open_ = [k for k in known['findings'] if k.get('status') == 'known']
    out.append('')
    out.append(f'Findings recorded instead of repaired: {len(open_) or "none"}.')
    for k in open_:
        out.append(f'* {k["property"]} {k["key"]}: {k.get("what", "")}')
    out += ['', LIMITS, ALARMS, NA]
    out.append('## 8. Planted changes\n')
    out.append('Written from the property text and the code, confirmed with a '
               'demonstration (passes without, fails with the change; the stable '
               'tests pass with it), kept in `seeded/`. "missed at first" marks '
               'those that the check did not report when they were planted, and '
               'what was changed in the check.\n')
    results = json.load(open(os.path.join(ROOT, 'tools', 'planted.json')))
    out.append('| change | property | what it needs | caught by |')
    out.append('|---|---|---|---|')
    for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        meta = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
        out.append(f'| {d} | {meta["property"]} | {meta["needs"]} | '
                   f'{results.get(d, "?")} |')
    out += ['', MUTATION]
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
