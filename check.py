#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--runs N] [--seed N]     decide one property
   check.py --replay FILE                                              re-execute a replay file
Exit status: 0 the property held on everything explored, 1 it is broken (a VIOLATION line is printed), 2 no answer."""
import argparse, glob, json, os, re, selectors, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
sys.dont_write_bytecode = True
import build as B

VORDER = ['kd', 'ws', 'wd', 'ks']                 # variant of run i is VORDER[i % 4]
VNAME = {'kd': 'KISS FFT, double', 'ks': 'KISS FFT, single', 'wd': 'FFTW3, double', 'ws': 'FFTW3, single',
         'md': 'MKL code on a stand-in for MKL, double', 'vs': 'FFTW2 code on a stand-in for FFTW2, single'}
STANDIN_SHARE = 16                                # runs on stand-ins: one in STANDIN_SHARE for each of them, with numbers above the others'
# runs per tier
QUICK = {'C01': 9000, 'C02': 9000, 'C03': 9000, 'C04': 10000, 'C05': 5000, 'C06': 7000, 'C07': 2500, 'C08': 2400, 'C09': 6000,
         'C10': 9000, 'C11': 10000, 'C12': 12000, 'C13': 9000, 'C14': 6000, 'C15': 8000, 'C16': 4000, 'C17': 4000, 'C18': 8000}
THOROUGH_FACTOR = 20
WORKERS = 4 * int(os.environ.get('VERIF_WORKERS4', '2'))
REAL = ['src/fft2d.cpp', 'src/fft3d.cpp', 'src/remap2d.cpp', 'src/remap3d.cpp', 'src/pack2d.h', 'src/pack3d.h', 'src/kissfft.h (KISS variants)',
        'src/memory.cpp', 'src/error.cpp', 'src/version.h', 'src/*_wrap.cpp (C interface)', 'src/*_wrap.f90 (Fortran interface)', 'libfftw3/libfftw3f (FFTW3 variants)']
STUB = ['MPI library (simulated: sim/sim.cpp, sim/mpi.h)', 'process scheduling (fibers)', 'clock (MPI_Wtime)', 'allocator (seeded contents, failures, accounting)',
        'process exit and abort', 'FFTW 2 and Intel MKL, which are not installed here (fft1d/, 1 run in 9)']


def harness_run(exe, path, out=None, timeout=180):
    cmd = [exe, 'run', path] + ([out] if out else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        return json.loads(r.stdout.decode('utf-8', 'replace'))
    except (subprocess.TimeoutExpired, ValueError):
        return {'cls': 'check-error', 'detail': 'no answer from the simulator', 'log': ''}


# ------------------------------------------------------------------ minimisation
class Scn:
    def __init__(self, text):
        self.head, self.lines, self.dec = [], [], []
        for l in text.splitlines():
            if l.startswith('#') or not l.strip():
                continue
            if l.startswith('prop '):
                self.head.append(l)
            elif l.startswith('dec '):
                self.dec.append(l)
            else:
                f = l.split()
                self.lines.append([f[0], {k: int(v) for k, v in (x.split('=') for x in f[1:])}])

    def text(self, dec=False):
        t = list(self.head)
        for w, kv in self.lines:
            t.append(' '.join([w] + ['%s=%d' % x for x in sorted(kv.items())]))
        return '\n'.join(t + (self.dec if dec else [])) + '\n'

    def copy(self):
        s = Scn('')
        s.head, s.lines, s.dec = list(self.head), [[w, dict(kv)] for w, kv in self.lines], list(self.dec)
        return s


SMALL = [2, 3, 4, 5, 6, 8]


def shrink(exe, text, cls, tmp, budget):
    """smaller scenario that fails in the same way; schedules are re-derived from the scenario's seed"""
    t0 = time.time()
    f = os.path.join(tmp, 'shrink.scn')
    tried = [0]

    def fails(s):
        if time.time() - t0 > budget:
            return False
        tried[0] += 1
        with open(f, 'w') as g:
            g.write(s.text())
        return harness_run(exe, f).get('cls') == cls

    cur = Scn(text)
    again = True
    while again and time.time() - t0 < budget:
        again = False
        i = len(cur.lines) - 1                    # leave out steps
        while i >= 0:
            if cur.lines[i][0] not in ('cfg', 'misc', 'obj'):
                s = cur.copy(); del s.lines[i]
                if fails(s):
                    cur = s; again = True
            i -= 1
        for i, (w, kv) in enumerate(cur.lines):   # fewer processes
            if w == 'cfg':
                for r in range(1, kv.get('ranks', 1)):
                    s = cur.copy(); s.lines[i][1]['ranks'] = r
                    if fails(s):
                        cur = s; again = True; break
        for i in range(len(cur.lines)):           # simpler values
            w = cur.lines[i][0]
            for k in sorted(cur.lines[i][1]):
                v = cur.lines[i][1].get(k)
                if v is None or (w == 'cfg' and k == 'ranks') or k in ('kind', 'bad', 'o', 'regime'):
                    continue
                opts = []
                if k in ('n0', 'n1', 'n2'):
                    opts = [x for x in ([1] if cur.lines[i][1].get('kind', 0) >= 2 else []) + SMALL if x < v]
                elif k == 'nqty':
                    opts = [1] if v > 1 else []
                elif k in ('seed', 'sin', 'sout'):
                    opts = [x for x in (0, 1) if x < v]
                    if w == 'cfg':
                        opts = [x for x in range(0, 6) if x < v]
                elif k == 'flag':
                    opts = []
                else:
                    opts = [None, 0] if v else [None]
                for o in opts:
                    s = cur.copy()
                    if o is None:
                        del s.lines[i][1][k]
                    else:
                        s.lines[i][1][k] = o
                    if fails(s):
                        cur = s; again = True; break
    return cur, tried[0]


def dec_parse(l):
    f = l.split()
    v = []
    for x in f[2:]:
        if x[0] == 'z':
            v += [0] * int(x[1:])
        else:
            v.append(int(x))
    return f[1], v


def dec_text(p, v):
    while v and v[-1] == 0:
        v = v[:-1]
    o, i = ['dec', p], 0
    while i < len(v):
        if v[i]:
            o.append(str(v[i])); i += 1
        else:
            j = i
            while j < len(v) and v[j] == 0:
                j += 1
            o.append('z%d' % (j - i)); i = j
    return ' '.join(o)


def shrink_decisions(exe, scn, cls, tmp, budget):
    """turns as many scheduling and fault decisions as possible into the unremarkable choice"""
    t0 = time.time()
    f, o = os.path.join(tmp, 'dec.scn'), os.path.join(tmp, 'dec.out')
    with open(f, 'w') as g:
        g.write(scn.text())
    r = harness_run(exe, f, o)
    if r.get('cls') != cls or not os.path.exists(o):
        return scn
    full = Scn(open(o).read())
    decs = [dec_parse(l) for l in full.dec]

    def with_(ds):
        s = scn.copy(); s.dec = [dec_text(p, list(v)) for p, v in ds]
        return s

    def fails(ds):
        if time.time() - t0 > budget:
            return False
        with open(f, 'w') as g:
            g.write(with_(ds).text(True))
        return harness_run(exe, f).get('cls') == cls

    if not fails(decs):
        return scn
    zero = [(p, []) for p, v in decs]
    if fails(zero):
        return with_(zero)
    for k in range(len(decs)):
        p, v = decs[k]
        pos = [i for i, x in enumerate(v) if x]
        n = 2
        while pos and time.time() - t0 < budget:
            size = max(1, len(pos) // n)
            done = True
            i = 0
            while i < len(pos):
                w = list(v)
                for q in pos[i:i + size]:
                    w[q] = 0
                t = decs[:k] + [(p, w)] + decs[k + 1:]
                if fails(t):
                    decs, v = t, w
                    del pos[i:i + size]
                    done = False
                else:
                    i += size
                if time.time() - t0 > budget:
                    break
            if size == 1:
                if done:
                    break
            n = min(len(pos) or 1, n * 2)
    return with_(decs)


# ------------------------------------------------------------------ known findings
def known_findings():
    """entries of known-findings.txt: 'finding: property=ID match=REGEX -- what fails'; 'fixed:' lines suppress nothing"""
    r = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) match=(.*?) -- (.*)$', l.strip())
            if m:
                r.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError:
        pass
    return r


# ------------------------------------------------------------------ search
class Worker:
    def __init__(self, prop, exe, variant, seed, k, total, step, tier):
        self.variant, self.step = variant, step
        self.buf = b''
        self.next = k
        self.stopped = False
        self.p = subprocess.Popen([exe, 'batch', prop, str(seed), str(k), str(total), str(step), str(tier)],
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        os.set_blocking(self.p.stdout.fileno(), False)


def search(prop, exes, seed, total, tier, deadline, known):
    rows, found, listed = [], [], {}
    sel = selectors.DefaultSelector()
    ws = [Worker(prop, exes[VORDER[k % 4]], VORDER[k % 4], seed, k, total, WORKERS, tier) for k in range(WORKERS)]
    more = [v for v in B.STANDIN if v in exes]
    ws += [Worker(prop, exes[v], v, seed, total + n, total + max(2, total // STANDIN_SHARE * len(more)), len(more), tier) for n, v in enumerate(more)]
    for w in ws:
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
    live = len(ws)
    first = None
    truncated = False
    while live:
        for key, _ in sel.select(timeout=2):
            w = key.data
            data = w.p.stdout.read()
            if data == b'':
                sel.unregister(w.p.stdout)
                w.p.wait()
                live -= 1
                if not w.stopped and w.p.returncode != 0:
                    raise RuntimeError('worker %s ended with status %d' % (w.variant, w.p.returncode))
                continue
            if data is None:
                continue
            w.buf += data
            *lines, w.buf = w.buf.split(b'\n')
            for l in lines:
                j = json.loads(l.decode('utf-8', 'replace'))
                j['v'] = w.variant
                w.next = j['i'] + w.step
                rows.append(j)
                if j['cls']:
                    hit = [t for p, rx, t in known if p == prop and rx.search(j['cls'] + ': ' + j['detail'])]
                    if hit:
                        listed[hit[0]] = listed.get(hit[0], 0) + 1
                    else:
                        found.append(j)
                        first = j['i'] if first is None else min(first, j['i'])
        for w in ws:
            if w.stopped or w.p.poll() is not None:
                continue
            if first is not None and w.next > first:
                w.stopped = True; w.p.kill()
            elif time.time() > deadline:
                w.stopped = True; truncated = True; w.p.kill()
    return rows, sorted(found, key=lambda j: j['i']), listed, truncated


# what makes two executions of one scenario the same
def same(a, b):
    if a['cls'] in ('crash', 'cpu-hang'):
        return a['cls'] == b['cls']
    return a['cls'] == b['cls'] and a['detail'] == b['detail'] and (a['log'] == b['log'])


def report(prop, exes, j, tier, tmp, replays):
    """confirms, minimises and writes the replay file; returns its path, or None if it does not reproduce"""
    exe = exes[j['v']]
    f = os.path.join(tmp, 'first.scn')
    with open(f, 'w') as g:
        subprocess.run([exe, 'gen', prop, str(j['seed']), str(tier)], stdout=g, check=True)
    a, b = harness_run(exe, f), harness_run(exe, f)
    if a.get('cls') != j['cls'] or not same(a, b):
        return None, None
    small, tried = shrink(exe, open(f).read(), j['cls'], tmp, 60)
    final = shrink_decisions(exe, small, j['cls'], tmp, 40)
    os.makedirs(replays, exist_ok=True)
    path = os.path.join(replays, '%s-%s-%d.replay' % (prop, j['v'], j['i']))
    for text in (final.text(True), small.text(), open(f).read()):
        with open(path, 'w') as g:
            g.write(text)
        a, b = harness_run(exe, path), harness_run(exe, path)
        if a.get('cls') == j['cls'] and same(a, b):
            break
    else:
        return None, None
    with open(path, 'w') as g:
        g.write('# property %s, variant %s (%s)\n# found as run %d, scenario seed %d; %d smaller scenarios tried\n# expect %s log %s\n# %s\n'
                % (prop, j['v'], VNAME[j['v']], j['i'], j['seed'], tried, a['cls'], a['log'], a['detail'].replace('\n', ' ')) + text)
    return path, a


def replay(path):
    text = open(path).read()
    v = re.search(r'variant (\w+)', text)
    want = re.search(r'^# expect (\S+) log (\w+)', text, re.M)
    prop = re.search(r'^prop (\S+)', text, re.M).group(1)
    v = v.group(1) if v else 'kd'
    exes, key = B.build([v])
    if prop == 'C17':
        B.build_python(os.path.join(VERIF, 'build', key))
    r = harness_run(exes[v], path)
    print(json.dumps(r, indent=1))
    if not r['cls']:
        print('no violation')
        return 0
    if want:
        print('reproduced exactly' if (r['cls'], r['log']) == want.groups() else 'a violation, but not the recorded execution')
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--no-evidence', action='store_true')
    o = ap.parse_args()
    if o.replay:
        return replay(o.replay)
    prop, tier = o.prop, 1 if o.tier == 'thorough' else 0
    t0 = time.time()
    exes, key = B.build(list(B.VARIANTS))
    if prop == 'C17':
        B.build_python(os.path.join(VERIF, 'build', key))
    names = json.loads(subprocess.run([exes['kd'], 'names'], stdout=subprocess.PIPE, check=True).stdout)
    tb = time.time() - t0
    total = o.runs or QUICK[prop] * (THOROUGH_FACTOR if tier else 1)
    deadline = t0 + (7200 if tier else 560)
    known = known_findings()
    rows, found, listed, truncated = search(prop, exes, o.seed, total, tier, deadline, known)
    ts = time.time() - t0 - tb
    # replay some of the runs and compare them bit for bit
    tmp = tempfile.mkdtemp(prefix='verif-')
    replays = os.path.join(VERIF, 'replays')
    status, lines = 0, []
    try:
        clean = sorted((j for j in rows if not j['cls']), key=lambda j: j['i'])
        again = clean[::max(1, len(clean) // 16)][:16]
        differs = 0
        for j in again:
            f = os.path.join(tmp, 're.scn')
            with open(f, 'w') as g:
                subprocess.run([exes[j['v']], 'gen', prop, str(j['seed']), str(tier)], stdout=g, check=True)
            r = harness_run(exes[j['v']], f)
            differs += r.get('log') != j['log'] or r.get('il') != j['il'] or r.get('cls') != j['cls']
        for j in found[:3]:
            path, a = report(prop, exes, j, tier, tmp, replays)
            if path:
                print('%s: %s (run %d, scenario seed %d, %s)' % (a['cls'], a['detail'], j['i'], j['seed'], VNAME[j['v']]))
                lines.append('VIOLATION property=%s replay=%s' % (prop, path))
                status = 1
                break
        if found and status == 0:
            print('a run failed but did not reproduce: %s' % json.dumps(found[0]))
            status = 2
        samples = []
        for j in clean[:1] + clean[len(clean) // 2:len(clean) // 2 + 1]:
            t = subprocess.run([exes[j['v']], 'gen', prop, str(j['seed']), str(tier)], stdout=subprocess.PIPE).stdout.decode()
            samples.append({'run': j['i'], 'scenario_seed': j['seed'], 'variant': VNAME[j['v']], 'scenario': t.strip().split('\n'), 'steps': j['steps'], 'messages': j['msgs'],
                            'collectives': j['colls'], 'execution_hash': j['log'], 'result': 'held'})
    finally:
        for n in os.listdir(tmp):
            os.unlink(os.path.join(tmp, n))
        os.rmdir(tmp)
    if truncated and status == 0:
        print('stopped at the time limit after %d of %d runs' % (len(rows), total))
    nontriv = {j['il'] for j in rows if j['ranks'] >= 2 and j['nonzero'] > 0}
    ev = {
        'property': prop, 'tier': o.tier, 'seed': o.seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': len(lines),
        'coverage': {
            'evaluations': len(rows), 'distinct_nontrivial': len(nontriv),
            'rule': 'One evaluation is one seeded scenario (grid, tilings, options, operations, communicators, faults) executed on the simulated machine under one seeded schedule. '
                    'Distinct: the hash of the interleaving (which process or message acted, in which order, in which MPI call) differs. Non-trivial: at least two processes '
                    'and at least one scheduling, buffering or fault decision other than the default one.',
            'samples': samples,
            'simulated_executions': sum(j['passes'] for j in rows),
            'runs_per_hour': int(len(rows) / max(ts, 1e-9) * 3600),
            'simulated_seconds': round(sum(j['simtime'] for j in rows), 3),
            'scheduler_steps': sum(j['steps'] for j in rows), 'context_switches': sum(j['switches'] for j in rows),
            'messages': sum(j['msgs'] for j in rows), 'collective_operations': sum(j['colls'] for j in rows),
            'injected': {n: sum(j['f'][k] for j in rows) for k, n in enumerate(names['faults']) if sum(j['f'][k] for j in rows)},
            'situations_reached': {n: sum(1 for j in rows if j['p'][k]) for k, n in enumerate(names['probes']) if any(j['p'][k] for j in rows)},
            'processes': {str(r): sum(1 for j in rows if j['ranks'] == r) for r in sorted({j['ranks'] for j in rows})},
            'runs_per_variant': {VNAME[v]: sum(1 for j in rows if j['v'] == v) for v in VORDER + list(B.STANDIN)},
            'replayed_for_determinism': len(again), 'replays_that_differed': differs,
            'deviations_owned_by_other_properties': sum(1 for j in rows if j['soft']),
            'real_components': REAL, 'stub_components': STUB,
            'stopped_at_time_limit': truncated, 'source_and_machinery_hash': key, 'build_s': round(tb, 1),
        },
        'assumptions': ['MPI is reliable and ordered per pair, as the standard requires: no loss, duplication or corruption of messages is injected, no process dies on its own',
                        'clocks never run backwards', 'decided for the scenarios and schedules explored, not for all'],
    }
    if not o.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as g:
            json.dump(ev, g, indent=1)
    for p, rx, t in known:
        if p == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, t))
    for l in lines:
        print(l)
    print('%s: %d runs, %d distinct non-trivial interleavings, %.0f s, %s' % (prop, len(rows), len(nontriv), time.time() - t0, 'held' if status == 0 else 'BROKEN' if status == 1 else 'no answer'))
    return status


if __name__ == '__main__':
    try:
        sys.exit(main())
    except B.BuildError as e:
        print('the library does not build for the simulator:\n%s' % e)
        sys.exit(2)
