"""Writes /verif/MANIFEST.json from the checks which exist."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)

NOTES = {
    'C01': 'Every execution of seeded random searches is judged by an independent oracle (gap function re-evaluated, results counted); no claim beyond the executions explored. Trusts the harness gap functions and the public result objects.',
    'C02': 'Each minimization of the explored searches is checked as a trace against the Nelder-Mead rules, using the recorded gap calls. Trusts the recorder and the trace checker.',
    'C03': 'Work accounting by an independent enumeration of mesh and stencil simplices on the explored searches. Simplices within rounding of a distance threshold are not judged.',
    'C04': 'Coverage and separation decided by brute-force distances on the explored searches; positions within rounding of the cutoff are not judged.',
    'C05': 'Schedules are sampled (completion orders by injected delays, sync/async, calling contexts, parallelism), results compared exactly with a sequential reference execution.',
    'C06': 'One fault or cancellation per execution at a sampled call; a counting event loop decides hanging. If the caller owns the event loop and the exception is KeyboardInterrupt or SystemExit, the completeness of the save file is not judged.',
    'C07': 'Crash points are executed lines of the package and its serialisation library (forked child killed by os._exit), plus injected write, rename and disk-full faults; each surviving file is loaded and judged. No power-loss model of the file system.',
    'C08': 'Random interruption points and chains of interruptions; the resumed search is judged by the same work accounting as C03/C04.',
    'C09': 'Round trips of generated objects, compared through the public content.',
    'C10': 'Compared with brute-force distances over explicit periodic images; distances within rounding of the cutoff are not judged.',
    'C11': 'Compared with brute-force geometry on generated boxes and positions; tolerances proportional to the rounding of the inputs.',
    'C12': 'Observed starting simplices and stencils compared with the documented grids and geometric facts.',
    'C13': 'Compared with an independent brute-force connected-component computation; sets with distances within rounding of the feature size are not judged.',
    'C14': 'Generated samplings with known dimension, dense and even by construction; the thresholds of what counts as dense are chosen with a margin.',
    'C15': 'Graph invariants are decided for all generated clusters; line names only for densely sampled curves.',
    'C16': 'Metamorphic: two executions of the real identification are compared.',
    'C17': 'The artists of the real matplotlib figures are recorded and compared with the result.',
    'C18': 'Effective values are reconstructed from the recorded gap calls and known nodes; positions within rounding of the cutoff are not judged.',
    'C19': 'Landscapes with known features, meshes chosen to reach every feature; end-to-end run of search, save, load and identify.',
}
TECH = {
    'C07': 'runtime monitoring: fault injection and crash points in the real search, with an offline checker of each surviving save file',
}
DEFAULT_TECH = {
    'C01': 'runtime monitoring: online probes and re-evaluation oracle on random searches',
    'C02': 'runtime monitoring: offline trace checker (Nelder-Mead specification) over recorded gap function calls',
    'C03': 'runtime monitoring: conservation checker of started simplices over recorded runs',
    'C04': 'runtime monitoring: checker of the recorded refinement history against brute-force distances',
    'C05': 'runtime monitoring: schedule perturbation (injected delays) with a differential and an occupancy monitor',
    'C06': 'runtime monitoring: injected faults and cancellations, with a counting event loop and call monitors',
    'C08': 'runtime monitoring: interrupt and resume histories with a work-conservation checker',
    'C09': 'runtime monitoring: round-trip oracle on generated objects',
    'C10': 'runtime monitoring: online comparison with a brute-force model during random histories',
    'C11': 'runtime monitoring: brute-force reference oracle on random and edge inputs',
    'C12': 'runtime monitoring: recorded starting points and stencil geometry against a reference',
    'C13': 'runtime monitoring: brute-force reference oracle on random point sets',
    'C14': 'runtime monitoring: known-answer workloads under varied random state and frame',
    'C15': 'runtime monitoring: graph invariant checker on recorded identification results',
    'C16': 'runtime monitoring: metamorphic comparison of executions',
    'C17': 'runtime monitoring: recorded plot artists against the result',
    'C18': 'runtime monitoring: offline trace checker over recorded gap function calls',
    'C19': 'runtime monitoring: end-to-end known-answer workloads',
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(here, 'nfmon', 'checks', pid.lower() + '.py')):
        text = open(os.path.join(here, 'nfmon', 'checks', pid.lower() + '.py')).read()
        level = 'fault_enumeration' if "LEVEL = 'fault_enumeration'" in text else 'exploration'
        checks.append(dict(
            property=pid, quick_cmd='./check ' + pid, thorough_cmd='./check ' + pid,
            evidence_file='evidence/{}.json'.format(pid),
            technique=TECH.get(pid) or DEFAULT_TECH[pid], level=level, level_note=NOTES[pid]))
    else:
        na.append(dict(property=pid, reason='the check is not built yet'))
man = dict(
    version=1,
    setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, networkx, h5py, matplotlib"',
    checks=checks, not_applicable=na,
    notes='No hooks in /repo: everything is observed through public objects, recording gap functions, counting event loops and fault injection at library boundaries.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
