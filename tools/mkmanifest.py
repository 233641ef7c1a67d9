"""Writes MANIFEST.json."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'C01': 'every explored history of save/load/dictionary generations gives bit-identical analyses, compared across simulated processes; trusts h5py/HDF5',
    'C02': 'seeded search over file operation x failure kind (EIO, ENOSPC, short write, EINTR, interrupts at source lines, process death); power loss after a completed save (no fsync) is not claimed',
    'C03': 'seeded search over interleavings of concurrent saves and loads at system-call and source-line granularity and over path shapes; the file system is a real directory behind a call-level seam',
    'C04': 'bit equality of seeded steps across ambient random states, entropy, hash seeds, worker processes and thread interleavings',
    'C05': 'faults at source lines and bytecodes of kinisi and lines of the sampler code it calls, progress output and rejected arguments; one fault per step',
    'C06': 'all delivery routes against an independent evaluation from true particle paths (relative tolerance for float32 sources)',
    'C07': 'a fault at any frame or file read of five kinds of source; either an exception or the complete result',
    'C08': 'threads interleaved at source lines and sequences in one process, compared with the same task alone in a fresh process',
    'C09': 'exact checks of size, pairing, units and sign plus moment checks with tolerances several times the sampling error',
    'C10': 'adversarial random streams with a draw budget; bounds on the number of resamples and the stopping rule checked exactly',
    'C14': 'sequences of memory budgets around the true need, for every route and delivery, with the memory actually held and allocated measured',
    'C13': 'histories of fits with refused and interrupted calls on simulated and heavy-tailed displacements; the matrix is judged after each against the reported variances',
    'C15': 'simulated runs on clocks with inexact ticks, split in several ways; interval grid judged in exact arithmetic, displacements against the true paths',
    'C17': 'random streams and histories of fits, reads and refused calls; exact checks of pairing, equations and bounds, moments against a quadrature of the posterior',
    'C18': 'random streams and generators (shared, own, process-wide), threads, refused and interrupted attempts; statistical bounds of 7-8 standard errors and exact checks of support, moments and repetition',
    'C11': 'random histories with refused and interrupted calls against a fresh analysis with only the last successful steps',
}
NA = {
    'C12': 'unwrapping is a pure function of coordinates and lattices: no schedule, clock, I/O or fault takes part, so there is nothing to simulate (delivery of the frames is C06)',
    'C16': 'closed-form evaluation; a pure function of temperatures and parameters (what fits report for their samples is C17, isolation of fits is C08)',
}


def main():
    sys.path.insert(0, V)
    checks = []
    for p, note in NOTE.items():
        src = open(os.path.join(V, 'sim', 'props', p.lower() + '.py')).read()
        level = src.split("LEVEL = '")[1].split("'")[0]
        checks.append(dict(property=p, quick_cmd=f'./check.py {p} --tier quick', thorough_cmd=f'./check.py {p} --tier thorough',
                           technique='deterministic simulation with fault injection: seeded search over schedules and faults',
                           level=level, level_note=note))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
             notes='No hooks in /repo: all seams are outside (LD_PRELOAD file seam, trace-based scheduler, simulated entropy, clock and random state). '
                   'Replay: ./check.py <property> --replay <file>.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
