"""Writes MANIFEST.json and known_findings.txt (fixed: lines from /repo's history)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = {'D02': '8d8c26f 9a4b387', 'D04': 'ef358a5 b72e4f8', 'D01': '1099137 987fdbb 953e624', 'V01': '0bd54d4 881421f', 'M01': '29cd8bf b9c8703', 'C01': 'bc1dfd8', 'M02': '682248f',
       'R01': 'f53293c e982594 53387f8 4ca5254 d3186c8', 'R02': '4d305c9 02ad921 7d096ed 8fa5773 c9be6f8', 'R03': 'e578ff7 32e2cee 267f9ed 8b73de6 e0746f1 b69e6ea', 'P01': '553ce1b', 'K01': 'fe864d6 d6c43e7',
       'K02': '6525e97 5bbacd2 f40ae71 bbd1747 47ef5c3', 'K03': '1081262 19727cd', 'Y02': '24e3532', 'Y01': '49a0459 8fe2697 a687243 3530a8b',
       'G01': '226d36b', 'E01': '73dc8d8 8b002f9 c3c3492 3893fc7', 'B02': 'aeeb32e 80ce169 90fde0c', 'B03': '2b0a210 e7a2a6f', 'L01': '2726e61 4fd6ba6 e826758 8f4618d', 'P02': '086f17d', 'S01': '5329679', 'S02': '90aa88f'}
EXTRA = {}
EXTRA_PATH = os.path.join(V, 'tools', 'fixes_extra.json')
if os.path.exists(EXTRA_PATH):
    EXTRA = json.load(open(EXTRA_PATH))
for k, v in EXTRA.items():
    FIX[k] = (FIX.get(k, '') + ' ' + v).strip()

TECH = {
 'D': 'runtime monitoring: generated workloads on the real scheduling code, every result judged online by an independent reference implementation',
 'C': 'runtime monitoring: model-based histories of operations on real cashflow containers judged by an online shadow model',
 'V': 'runtime monitoring: generated curves and query histories judged online by an independent interpolation and compounding oracle',
 'B': 'runtime monitoring: generated bonds and valuation dates judged online by an independent cashflow and pricing oracle',
 'Y': 'runtime monitoring: bootstrapped curves judged online by repricing, shift and knot oracles over generated instruments',
 'K': 'runtime monitoring: generated key-rate operation histories judged online by a shadow model and finite revaluation',
 'P': 'runtime monitoring: generated portfolios and optimisations judged online by recomputation and by optimality certificates',
 'S': 'runtime monitoring: generated swaps and curves judged online by an independent leg-by-leg cashflow oracle',
 'L': 'runtime monitoring: generated loans judged online by conservation and amortisation invariants and an independent oracle',
 'M': 'runtime monitoring: simulated processes judged online by replaying their recurrences and by statistical monitors of their law',
 'R': 'runtime monitoring: simulated short-rate models judged online by numerical solutions of their pricing equations and by history monitors',
 'Q': 'runtime monitoring: interleaved histories of queries over many near-identical objects, each answer compared with the one a fresh process gives',
 'G': 'runtime monitoring: figures recorded on a canvas, the data of every line drawn judged online against the object it shows',
 'E': 'runtime monitoring: faults injected into callbacks, instruments, curves and iterables, and the objects compared afterwards with equal ones spared of them',
 'X': 'runtime monitoring: simulated default times judged online by grid and horizon invariants and statistical monitors of the law',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    checks = []
    for p in props:
        i = p['id']
        cmd = f'/opt/venv/bin/python /verif/run_check.py {i} --tier '
        checks.append({'property': i, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough', 'technique': TECH[i[0]], 'level': 'exploration',
                       'level_note': 'Seeded random, boundary-weighted and history workloads on the real code; every observation judged by an independent oracle; '
                                     'coverage floors make a thin run inconclusive rather than a pass. Bounds and tolerances: DESIGN.md.',
                       'evidence_file': f'evidence/{i}.json'})
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python /verif/tools/selfcheck.py', 'checks': checks, 'not_applicable': []}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    order = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h|%s', '61146cf..'], capture_output=True, text=True).stdout.split('\n')
    subj = dict(l.split('|', 1) for l in order if l)
    out = ['# Genuine defects of aflapan/fixedIncome. "fixed:" entries suppress nothing. "finding:" entries (none at present) would be',
           '# "finding: property=<id> key=<mechanism> <what fails>".']
    used = set()
    for h, s in subj.items():
        for pid, hs in sorted(FIX.items()):
            if h in hs.split():
                out.append(f'fixed: property={pid} {h} {s.removeprefix("fix: ")}')
                used.add(h)
    missing = set(subj) - used
    assert not missing, missing
    path = os.path.join(V, 'known_findings.txt')
    keep = [l for l in open(path).read().split('\n') if l.startswith('finding: ')] if os.path.exists(path) else []
    open(path, 'w').write('\n'.join(out + keep) + '\n')


main()
