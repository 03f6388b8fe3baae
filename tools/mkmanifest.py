"""Writes MANIFEST.json from the checks present in vf/checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PY = '/opt/stempy-venv/bin/python'

TECH = {
    'none': 'runtime monitoring of the real Python code: online oracle (independent dense model) on generated workloads',
    'plain': 'runtime monitoring of the real library: independent reference oracle on generated files and arrays',
    'perturb': 'schedule perturbation (injected delays at locks, notifications and reads) with conservation / exactly-once oracle',
    'tsan': 'ThreadSanitizer on the real library under multithreaded workloads',
    'mpi': 'runtime monitoring of the real MPI build, its ranks being processes over a monitoring stand-in for the MPI library, with exactly-once oracle',
    'asan': 'AddressSanitizer + UndefinedBehaviorSanitizer on the real library, with hostile inputs and value oracle',
}
NOTE = ('Holds on the executions observed (numbers and samples in the evidence '
        'file); inputs are generated from a seed, workload classes that must '
        'occur are enforced. Trusts the reference model in vf/checks, numpy/'
        'h5py, the compilers and sanitizer runtimes.')
NA = {
    'C31': 'VTK-m is not installed, so the VTK-m build cannot be compiled or executed here; runtime monitoring needs an execution.',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        path = os.path.join(ROOT, 'vf', 'checks', pid.lower() + '.py')
        if not os.path.exists(path):
            na.append(dict(property=pid, reason=NA.get(
                pid, 'Check not built yet.')))
            continue
        ns = {}
        import importlib
        mod = importlib.import_module('vf.checks.' + pid.lower())
        kinds = []
        for ph in mod.PHASES:
            k = 'perturb' if ph.get('perturb') and \
                ph['variant'] != 'mpi' else ph['variant']
            if k not in kinds:
                kinds.append(k)
        tech = getattr(mod, 'TECHNIQUE', None) or '; '.join(TECH[k] for k in kinds)
        checks.append(dict(
            property=pid,
            quick_cmd=f'{PY} -m vf run {pid} quick',
            thorough_cmd=f'{PY} -m vf run {pid} thorough',
            evidence_file=f'evidence/{pid}.json',
            technique=tech, level='exploration',
            level_note=getattr(mod, 'LEVEL_NOTE', NOTE)))
    m = dict(version=1, setup_cmd=f'{PY} -m vf setup', checks=checks,
             not_applicable=na,
             notes='No hooks are needed in /repo: instrumentation is added by '
                   'the compilers, by an LD_PRELOAD library and by monitors '
                   'outside the tree. Known and fixed findings: '
                   'known_findings.json.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not claimed')


main()
