"""Writes MANIFEST.json from the properties and the notes below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'C01': 'one or two faults (I/O error, stale handle, timeout, interrupt, out of memory, converter exceptions of 17 types) at drawn open/read/seek/tell/map/converter calls, on generated sources of all four readers',
    'C02': 'faults as in C01 and damaged sources; judged by the handles the simulator handed out, /proc/self/fd and maps, and the caller\'s stream',
    'C03': 'generated tables and options against the table itself; the simulator decides delivery kind, buffer and chunk sizes and where reads are split',
    'C04': 'generated numeric files, with and without headers and names, against the numbers written; delivery decided by the simulator',
    'C05': 'generated dbf files against the records written; delivery decided by the simulator',
    'C06': 'generated workbooks (xlsx, BIFF 2-8 in drawn compound document layouts) against the cells written; delivery decided by the simulator',
    'C07': 'crash of the writer at a drawn byte (truncation) and flipped stored bytes in xlsx members',
    'C08': 'a simulated writer appends or replaces between the reader\'s I/O calls',
    'C09': '2-4 threads under a seeded scheduler with line, bytecode and I/O preemption and a fault in at most one of them',
    'C10': 'histories of operations, a part of them failing, against an executable model',
    'C11': 'histories of appends incl. misfits and failing numpy allocations, against an executable model',
    'C12': 'histories over several packs and caller objects that share arrays, dicts and masks',
    'C13': 'invalid arguments, raising iterables and failing numpy allocations at drawn points of histories',
    'C14': '2-4 reader threads on one pack under a seeded scheduler with line and bytecode preemption',
    'C15': 'interleavings of iterators and operations on the pack, some in two threads under the seeded scheduler',
    'C16': 'histories on the two mappings incl. rejected operations, one-shot and raising iterables, failing allocations',
    'C17': 'interleaved load/unload/release histories over up to three workbooks, damaged sheets, interrupts at drawn lines of a load',
    'C22': 'the same workbook opened repeatedly in drawn ways against the cells written, with a fault at a drawn I/O call of an opening; delivery decided by the simulator',
}
NA = {
    'C18': 'a pure function of its argument: no schedule, clock, fault or I/O for a simulator to decide',
    'C19': 'a pure function of its argument: no schedule, clock, fault or I/O for a simulator to decide',
    'C20': 'pure functions of their arguments; their effect through histories of a pack is part of C10',
    'C21': 'pure functions of a format string or formula token string: nothing for a simulator to decide',
}
checks = []
for pid in sorted(NOTES):
    checks.append({
        'property': pid,
        'quick_cmd': 'bash check.sh %s' % pid,
        'thorough_cmd': 'VERIF_TIER=thorough bash check.sh %s' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': 'deterministic simulation with fault injection (seeded search over schedules, deliveries and faults)',
        'level': 'exploration',
        'level_note': 'Seeded sampling, not proof: ' + NOTES[pid] + '. Assumptions and what is real or stubbed are in the evidence file.',
    })
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
    'notes': 'No hooks in /repo: the seams (open, mmap, raw file reads, numpy allocation, threads, threading locks, sys.stdout) are installed from outside before channelpack is imported from /repo. Genuine defects found are repaired by fix: commits listed in known-findings.txt.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
