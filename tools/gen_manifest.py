""" Writes /verif/MANIFEST.json (run by hand after an edit). """
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.scenarios import ALL, get  # noqa: E402

PYTHON = '/opt/venv/bin/python'
NOTES = {
    'L': 'Seeded search over recordings (simulated publishers and logger), cut positions, damage, read faults and read sizes, with the '
         'real parser; oracle is an independent model of the recording. Not exhaustive: holds for the runs listed in the evidence.',
    'W': 'Seeded search over recordings, recoveries and failing writes with the real writer and parser; the oracle compares content '
         'before and after. Not exhaustive.',
    'D': 'Seeded search over client interleavings, crash points, power loss with lost and torn unsynced writes, disk and lock faults; '
         'pyulog.db, pyulog/sql and the SQLite library run for real on a simulated disk (a VFS). Trusts SQLite and the disk model '
         '(512-byte atomic sectors, sync is honest). Not exhaustive.',
    'M': 'Seeded search over starting versions, crash points, faults and interleavings of migrations and clients; migrate_db, the SQL '
         'scripts and SQLite run for real on a simulated disk. Frozen copies of the released schemas are the reference. Not exhaustive.',
    'X': 'Seeded search over recordings, options and failing opens, reads, writes and closes; the tool and the parser run for real on '
         'simulated raw files; the oracle recomputes the output from the recording. Not exhaustive.',
    'P': 'Seeded search over recordings and histories of queries with the real parser and PX4ULog; the oracle recomputes the answers from '
         'the recording. Not exhaustive.',
    'E': 'Seeded search over sequences of logs and network faults; px4_events and messages run for real, the network and the absent '
         'libevents parser are stand-ins. Not exhaustive.',
}
NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8') as inp:
        known = [json.loads(line)['id'] for line in inp]
    skip = {name for name, _ in NOT_APPLICABLE}
    assert set(known) == set(ALL) | skip, set(known) ^ (set(ALL) | skip)
    checks = []
    for name in known:
        if name in skip:
            continue
        get(name)
        checks.append({
            'property': name,
            'quick_cmd': '%s run.py %s --tier quick' % (PYTHON, name),
            'thorough_cmd': '%s run.py %s --tier thorough' % (PYTHON, name),
            'evidence_file': 'evidence/%s.json' % name,
            'technique': 'deterministic simulation with fault injection (seeded search)',
            'level': 'exploration',
            'level_note': NOTES[name[0]],
        })
    data = {'version': 1, 'setup_cmd': '%s run.py --self-test' % PYTHON, 'checks': checks,
            'not_applicable': [{'property': n, 'reason': r} for n, r in NOT_APPLICABLE],
            'notes': 'No hooks in /repo: the seams are sqlite3 VFS, builtins.open/io.open, sys.stdout, time.sleep and urlopen. '
                     'Replay: run.py ID --replay FILE. VERIF_SEED selects the seed, VERIF_SCALE multiplies the number of cases.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as out:
        json.dump(data, out, indent=1)
        out.write('\n')


main()
