"""Writes MANIFEST.json"""
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
SIM = ('Seeded search, not a proof: every run is decided by one seed, violations are minimised and replayed in a fresh process. ')
NOTE = {
    'C01': SIM + 'The library code is real; the Unix programs, kernel and splitter are simulated, the programs calibrated against GNU tools. '
           'Assumes those models where sequential and parallel output depend on them.',
    'C02': SIM + 'As C01, with a dispatcher that reorders, repeats and duplicates blocks and an in-order merge.',
    'C03': SIM + 'As C01, with arbitrary distribution and order of lines.',
    'C04': SIM + 'As C01, for the commands with auxiliary streams and trees of pairwise aggregators.',
    'C05': SIM + 'The library decides which commands of a script may overlap; simulated programs race on simulated files.',
    'C06': SIM + 'Unreported files are made to fail, change and vanish under simulated programs, and the programs are killed at any system call.',
    'C07': SIM + 'The command line rebuilt from the parsed form runs against pipes in the simulator and is compared with the original.',
    'C08': SIM + 'Real library; the reads of its command data pass a fault-injecting layer.',
    'C09': SIM + 'Real command-line tool on a scratch directory with an adversary scheduled at its lines and system calls, write faults and crashes.',
    'C10': SIM + 'Real library; threads are preempted line by line by a seeded scheduler, answers compared with fresh processes.',
    'C11': SIM + 'Real library; exceptions are delivered at any traced line, later answers compared with fresh processes.',
    'C12': SIM + 'Real library in processes with drawn hash seeds, environments, directories, clocks and orders, compared with one reference.',
    'C13': SIM + 'Real invocation objects under random histories of channel replacement, against a reference model and by transporting data.',
}
TECH = {
    'C01': 'deterministic simulation of parallel pipelines built by the library, worker crashes, differential oracle',
    'C02': 'deterministic simulation of block dispatch and in-order merge, re-dispatch faults, differential oracle',
    'C03': 'deterministic simulation of arbitrary line distribution, worker crashes, differential oracle',
    'C04': 'deterministic simulation of aggregation trees with auxiliary streams',
    'C05': 'deterministic simulation of racing commands over a simulated file system',
    'C06': 'deterministic simulation with file faults and crash points',
    'C07': 'deterministic simulation of rebuilt commands over bounded pipes',
    'C08': 'fault injection at the data-file seam, seeded histories',
    'C09': 'deterministic adversary and crash scheduling around the real tool in a scratch directory',
    'C10': 'deterministic thread scheduler with line-level preemption',
    'C11': 'seeded asynchronous exception injection at line granularity',
    'C12': 'seeded environments: every ambient input of the process drawn by the simulator',
    'C13': 'state-machine histories under channel failures against a reference model, data transported in the simulator',
}
NA = {
    'C14': 'a pure function of the spelled command line: no schedule, time, I/O or fault decides it, so deterministic simulation adds nothing '
           '(whether a spelling still denotes the same command is decided behaviourally by C05-C07)',
    'C15': 'a pure function of two objects: nothing for a scheduler or fault injector to decide',
    'C16': 'an offline text-to-text conversion of one man page: pure function of its input, no concurrency, time, faults or parties',
}


def main():
    import sys
    claimed = sys.argv[1:] or sorted(NOTE)
    na = dict(NA)
    for p in NOTE:
        if p not in claimed:
            na[p] = 'check not built yet'
    m = {'version': 1, 'setup_cmd': 'true',
         'checks': [{'property': p, 'quick_cmd': 'bash checks/run.sh %s quick' % p, 'thorough_cmd': 'bash checks/run.sh %s thorough' % p,
                     'evidence_file': 'evidence/%s.json' % p, 'technique': TECH[p], 'level': 'exploration', 'level_note': NOTE[p]} for p in claimed],
         'not_applicable': [{'property': p, 'reason': na[p]} for p in sorted(na)],
         'notes': 'No hooks in /repo: the library is deterministic Python, seams are subprocess-free function calls, the module-level open, '
                  'sys.settrace and the process environment. Replay: python -m simpash.run replay FILE.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
