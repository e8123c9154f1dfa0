"""Writes MANIFEST.json."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

ENUM = 'bounded exhaustive enumeration of inputs and configurations on the ' \
    'real code, compared step by step with a reference model'
TECH = {
    'C01': 'bounded exhaustive enumeration (impulse basis, pairs, '
           'configurations) on the real code against a pyramid reference model',
    'C15': 'explicit enumeration of every operation sequence up to a depth on '
           'the real code, against fresh executions',
    'C16': 'stateless exploration of all thread schedules up to a preemption '
           'bound on the real code under a controlled scheduler',
    'C17': 'explicit-state search of all reachable states of the real object '
           'under an alphabet of calls',
    'C18': 'exhaustive enumeration of operation sequences and signal pairs on '
           'the real object',
    'C26': 'exhaustive enumeration over a noise basis and parameter grid on '
           'the real code (the map is linear)',
    'C28': 'exhaustive enumeration over a noise basis and parameter grid on '
           'the real code',
    'C30': 'exhaustive enumeration of figures drawn off-screen by the real '
           'code, compared with a reference model',
    'C34': 'exhaustive fault injection: a failure at every line executed by '
           'the real code, each followed by every later call of an alphabet, '
           'against undisturbed executions',
    'C35': 'bounded exhaustive enumeration of batches and missing samples on '
           'the real code, compared with each realisation alone',
    'C36': 'exhaustive enumeration of results, ways of copying and '
           'modifications on the real objects',
    'C37': 'bounded exhaustive enumeration of signals, cuts and changes on '
           'the real code, compared with the uncut or unchanged analysis',
    'C32': 'exhaustive enumeration of operation sequences up to a depth '
           'against a dictionary model',
}
NOTE = 'Every execution of the stated bound was run on the code in /repo; ' \
    'nothing is claimed beyond the bound. Trusts numpy/scipy (FFT, linear ' \
    'algebra), the filter taps of pywt, and the reference model in mc/.'
NOTES = {
    'C16': 'All interleavings at line granularity up to the preemption bound; '
           'switches inside one line or inside numpy/scipy are not explored.',
    'C30': 'Trusts matplotlib (Agg) for what a drawn artist shows.',
    'C17': 'All states reachable by the alphabet of calls up to the depth '
           'reported; states are merged by the content of everything '
           'reachable from the object.',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(
        ROOT, 'properties.jsonl'))]
    checks = []
    for p in props:
        i = p['id']
        src = os.path.join(ROOT, 'mc', 'checks', i.lower() + '.py')
        if not os.path.exists(src):
            continue
        mod = importlib.import_module(f'mc.checks.{i.lower()}')
        checks.append({
            'property': i,
            'quick_cmd': f'./run.sh {i}',
            'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': TECH.get(i, ENUM),
            'level': mod.LEVEL,
            'level_note': f'Bound (quick): {mod.BOUNDS["quick"]}. '
                          + NOTES.get(i, '') + (' ' if i in NOTES else '')
                          + NOTE})
    have = {c['property'] for c in checks}
    out = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [{'property': p['id'], 'reason': 'not built yet'}
                              for p in props if p['id'] not in have],
           'notes': 'Pure Python: checks import the package from /repo as it '
                    'is in the working tree, with no hooks and no build. '
                    'VERIF_SEED is not used for any choice.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks')


main()
