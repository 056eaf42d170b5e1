import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'Every tile of every forward transform is compared with an independent direct DFT under seeded schedules, layouts and options.',
 'C02': 'Every backward transform is compared with an independent inverse DFT; round trips and switches of the scaling flag included.',
 'C03': 'Separate arrays of exactly the documented lengths between poisoned guard zones; input compared bit for bit afterwards.',
 'C04': 'Random bit patterns are followed from old to new owner through the remap classes, for 1 to 5 values per point.',
 'C05': 'The same scenario is executed under different schedules and performance options and the results compared bit for bit.',
 'C06': 'Unbuffered sends, late transfers, stalls and starvation; deadlock, step bound, leftover messages and requests, and use of buffers owned by MPI are checked.',
 'C07': 'Per-process clocks with skew, drift, coarse ticks and jumps; the outcome on all processes and against an explicitly set up plan is compared.',
 'C08': 'Time limits are placed from costs measured on the simulated clock so that every reduction branch is taken; the reports are compared with the documentation and with independent timings.',
 'C09': 'Histories over several plans and communicators with application traffic; every call is judged as if its plan were alone.',
 'C10': 'Buffers of exactly the reported lengths between guard zones, all library memory under AddressSanitizer.',
 'C11': 'One or more consecutive allocations are refused at a seeded point on a seeded process (the allocations of the throwing operator new excepted).',
 'C12': 'Legal programs with one illegal step; every process must stop with an error and a failing status. Legal programs must not be stopped.',
 'C13': 'Allocations, communicators, groups, requests, datatypes and FFTW plans are counted per process around every life cycle.',
 'C14': 'The same scenario under the same schedule through the C++, C and Fortran interfaces, results and queries compared.',
 'C15': 'Only-remap, stage-by-stage and remap-only operations must move the values bit for bit; the 1d-only operation must not communicate.',
 'C16': 'Each operation of a history on one plan is repeated on a fresh plan and compared bit for bit.',
 'C18': 'Every message and collective exchange of every call is counted per process, destination and stage and compared with what layouts and options call for; reported memory is compared with the allocations counted.',
 'C17': 'src/fftmpi.py runs in an embedded Python with one thread state per simulated process and drives the simulated library; the same scenario under the same schedule through the native classes is the oracle. Its Python 2 syntax is translated on the fly, mpi4py is a stub.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': 'deterministic simulation with fault injection: seeded search over schedules, buffering, clocks and faults of the real library on a simulated MPI machine',
                   'level': 'exploration',
                   'level_note': NOTE[i] + ' Trusted: the simulated MPI library, the reference computations of the harness, AddressSanitizer. Sampled, not exhaustive.'})
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: its sources are compiled unchanged against the simulated MPI header and a redirected allocator.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
