#!/usr/bin/env python3
"""Build and run one simulation check:  run.py <ID> quick|thorough
   run.py --setup | run.py --replay <file> [--verbose]"""
import fcntl, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(HERE, 'build'))
sys.path.insert(0, HERE)
from checks import CHECKS, KNOWN_FILE  # noqa: E402

ENV = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', ASAN_OPTIONS='', MALLOC_ARENA_MAX='1', LC_ALL='C')
NW = int(os.environ.get('SIM_WORKERS', '8'))


def die(msg, code=3):
    print('ERROR:', msg, file=sys.stderr)
    sys.exit(code)


# ---------------------------------------------------------------- build -----
BASE = ['-std=c++17', '-include', 'cstdint', '-O1', '-g1', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-U_FORTIFY_SOURCE', '-w', '-pthread', '-fwrapv']
MPI_FLAGS = BASE + ['-fsanitize=address']


def includes():
    return ['-I', f'{HERE}/sim', '-I', f'{HERE}/sim/mpi', '-I', f'{HERE}/sim/shim', '-I', f'{HERE}/harness', '-I', f'{BUILD}/config',
            '-I', f'{REPO}/include', '-I', f'{REPO}/src/sparsexx/include', '-I', f'{REPO}/src/lobpcgxx/include', '-I', f'{REPO}/src/macis',
            '-I', '/usr/include/eigen3']


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, 'w').write(text)


def gen_config(on):
    """Configuration headers from the repository's own templates."""
    for tmpl, out in ((f'{REPO}/include/macis/macis_config.hpp.in', 'macis/macis_config.hpp'),
                      (f'{REPO}/src/sparsexx/include/sparsexx/sparsexx_config.hpp.in', 'sparsexx/sparsexx_config.hpp')):
        lines = []
        for l in open(tmpl):
            if l.startswith('#cmakedefine'):
                name = l.split()[1]
                lines.append(f'#define {name}\n' if name in on else f'/* #undef {name} */\n')
            else:
                lines.append(l)
        write_if_changed(f'{BUILD}/config/{out}', ''.join(lines))


def build(cid):
    c = CHECKS[cid]
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(f'{BUILD}/lock-{cid}', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        gen_config({'MACIS_ENABLE_MPI', 'SPARSEXX_ENABLE_MPI'})
        d = f'{BUILD}/{cid}'
        os.makedirs(d, exist_ok=True)
        kind = c.get('kind', 'mpi')
        inc = ' '.join(includes())
        objs, rules = [], []
        for s, flags in c_sources(c, kind):
            o = f"{d}/{os.path.basename(s).replace('.', '_')}.o"
            objs.append(o)
            rules.append(f"build {o}: cxx {s}\n  flags = {' '.join(flags)} {inc}\n")
        exe = f'{d}/sim'
        link = ' '.join(c_link(c, kind))
        txt = ('rule cxx\n  command = g++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n'
               'rule link\n  command = g++ $in -o $out $lflags\n' + ''.join(rules) +
               f"build {exe}: link {' '.join(objs)}\n  lflags = {link}\n")
        write_if_changed(f'{d}/build.ninja', txt)
        r = subprocess.run(['ninja', '-C', d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-6000:], file=sys.stderr)
            die(f'build of {cid} failed')
    return exe, time.time() - t0


def c_sources(c, kind):
    out = []
    c = dict(c, flags=[f.replace('{REPO}', REPO).replace('{HERE}', HERE) for f in c.get('flags', [])])
    if kind == 'mpi':
        core = ['sim/sim.cpp', 'sim/simmpi.cpp', 'sim/simio.cpp']
        fl = MPI_FLAGS + c.get('flags', [])
        for s in core:
            out.append((f'{HERE}/{s}', MPI_FLAGS))
    else:
        core = ['sim/sim.cpp', 'sim/simio.cpp', 'sim/simomp.cpp']
        if c.get('mpi'):
            core.append('sim/simmpi.cpp')
        fl = BASE + ['-fopenmp', '-fsanitize=thread'] + c.get('flags', [])
        for s in core:
            out.append((f'{HERE}/{s}', BASE))
    for s in c['harness']:
        out.append((f'{HERE}/harness/{s}', fl))
    for s in c.get('repo', []):
        out.append((f'{REPO}/{s}', fl))
    return out


def c_link(c, kind):
    l = ['-pthread', '-ldl']
    if kind == 'mpi':
        l.insert(0, '-fsanitize=address')
    else:
        l += [f'-Wl,--wrap={f}' for f in ('memcpy', 'memmove', 'memset', 'malloc', 'calloc', 'realloc', 'free', '__cxa_thread_atexit')] + ['-lgomp']
    return c.get('link', []) + l


# ---------------------------------------------------------------- running ---
class Worker:
    def __init__(self, exe, tag, td, args):
        self.dir = f'{td}/{tag}'
        os.makedirs(self.dir, exist_ok=True)
        self.f = {k: f'{self.dir}/{k}' for k in ('stats', 'keys', 'viol', 'map', 'err')}
        opt = dict(zip(args[::2], args[1::2]))
        self.base, self.stride = int(opt.get('--base', 0)), int(opt.get('--stride', 1))
        cmd = [exe, '--scratch', f'{self.dir}/s', '--out', self.f['stats'], '--keys', self.f['keys'], '--viol', self.f['viol'],
               '--tapemap', self.f['map']] + args
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(self.f['err'], 'w'), env=ENV)

    def tape(self):
        b = open(self.f['map'], 'rb').read(16)
        _, n, seed = struct.unpack('<IIQ', b)
        with open(self.f['map'], 'rb') as f:
            f.seek(16)
            return seed, list(struct.unpack(f'<{n}I', f.read(4 * n)))


def crash_class(rc):
    return f'crash:signal{-rc}' if rc < 0 else f'crash:exit{rc}'


def crash_text(err):
    try:
        t = open(err, errors='replace').read()
    except OSError:
        return ''
    keep = [l.strip() for l in t.splitlines() if 'ERROR: AddressSanitizer' in l or 'SUMMARY' in l or 'SIM-HANG' in l or 'terminate' in l or 'what()' in l
            or l.strip().startswith(('#0', '#1', '#2', '#3', '#4', '#5', '#6')) or 'READ of' in l or 'WRITE of' in l]
    return ' | '.join(keep[:14])[:1800]


def replay_tape(exe, td, tape, tag, extra, verbose=False):
    """One fresh process; returns (class or '', hash, result)."""
    d = f'{td}/{tag}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/tape', 'w').write(' '.join(map(str, tape)) + '\n')
    out = f'{d}/out.json'
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.run([exe, '--scratch', f'{d}/s', '--op', 'replay', '--tape', f'{d}/tape', '--out', out, '--verbose', '1' if verbose else '0'] + extra,
                       stdout=subprocess.DEVNULL, stderr=open(f'{d}/err', 'w'), env=ENV)
    if p.returncode in (0, 10):
        r = json.load(open(out))
        return (r['class'] if r['failed'] else ''), r['hash'], r
    return crash_class(p.returncode), 'crash', {'class': crash_class(p.returncode), 'message': crash_text(f'{d}/err'), 'trace': []}


def replay_history(exe, td, seeds, tag, extra):
    """Runs several seeds in one fresh process; returns (class or '', hash, seed, result) of the run that failed."""
    with open(f'{td}/{tag}.list', 'w') as f:
        f.write('\n'.join(map(str, seeds)) + '\n')
    w = Worker(exe, tag, td, ['--list', f'{td}/{tag}.list'] + extra)
    w.p.wait()
    rc = w.p.returncode
    if rc == 0:
        return '', '', None, {}
    if rc == 10:
        r = json.load(open(w.f['viol']))
        return r['class'], r['hash'], r['seed'], r
    return crash_class(rc), 'crash', w.tape()[0], {'class': crash_class(rc), 'message': crash_text(w.f['err']), 'trace': []}


def read_keys(path):
    try:
        b = open(path, 'rb').read()
    except OSError:
        return []
    n = len(b) // 32
    return [struct.unpack_from('<QQQQ', b, 32 * i) for i in range(n)]


def load_known():
    out = []
    try:
        for l in open(os.path.join(HERE, KNOWN_FILE)):
            l = l.strip()
            if l.startswith('known: '):
                head, _, text = l[7:].partition(' :: ')
                kv = dict(x.split('=', 1) for x in head.split())
                out.append((kv['property'], kv['mode'], text))
    except OSError:
        pass
    return out


def run_check(cid, tier):
    c = CHECKS[cid]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    exe, tb = build(cid)
    extra = []
    tlimit = float(os.environ.get('SIM_TIME', c.get(tier, 60 if tier == 'quick' else 600)))
    base = seed * 1_000_000_007 % (1 << 40)
    td = tempfile.mkdtemp(prefix=f'sim-{cid}-')
    viol = None
    known_lines = []
    try:
        ws = [Worker(exe, f'w{w}', td, ['--base', str(base + w), '--stride', str(NW), '--count', str(c.get('max_runs', 10**9)), '--time', str(tlimit)] + extra) for w in range(NW)]
        bad = None
        pending = set(range(NW))
        while pending and bad is None:
            for w in list(pending):
                rc = ws[w].p.poll()
                if rc is None:
                    continue
                pending.discard(w)
                if rc != 0:
                    bad = w
                    break
            time.sleep(0.05)
            if time.time() - t0 > tlimit + tb + 240:
                die('workers did not stop')
        for w in pending:
            ws[w].p.terminate()
        for w in ws:
            w.p.wait()
        stats = dict(runs=0, nontrivial=0, steps=0, sim_ns=0, faults={}, probes={}, wall=0.0)
        keys = []
        for w in ws:
            try:
                s = json.load(open(w.f['stats']))
            except (OSError, ValueError):
                continue
            for k in ('runs', 'nontrivial', 'steps', 'sim_ns'):
                stats[k] += s[k]
            stats['wall'] = max(stats['wall'], s['wall'])
            for g in ('faults', 'probes'):
                for k, v in s[g].items():
                    stats[g][k] = stats[g].get(k, 0) + v
            keys += read_keys(w.f['keys'])
        if bad is not None:
            viol = handle_violation(cid, exe, td, ws[bad], extra, tier)
            if viol is None:
                die('a run failed but the failure does not replay; see above')
        else:
            det = determinism(cid, exe, td, keys, extra)
        write_evidence(cid, tier, seed, stats, keys, exe, td, extra, time.time() - t0, viol, None if viol else det, tb)
    finally:
        shutil.rmtree(td, ignore_errors=True)
    for p, m, text in load_known():
        if p == cid:
            print(f'KNOWN-FINDING: property={cid} {text}')
    if viol:
        print(f"violation class={viol['class']} seed={viol['seed']}: {viol['message'][:700]}")
        print(f"VIOLATION property={cid} replay={viol['path']}")
        sys.exit(1)
    print(f"{cid} {tier}: {stats['runs']} runs, {stats['nontrivial']} nontrivial, {len(set(k[2] for k in keys))} schedules, {time.time()-t0:.1f}s (build {tb:.1f}s)")
    sys.exit(0)


def determinism(cid, exe, td, keys, extra):
    """Re-run a sample of seeds in other processes, in another order and grouping."""
    if not keys:
        die('no runs')
    ks = {k[0]: k for k in keys}
    pick = sorted(ks)[:: max(1, len(ks) // 40)][:40]
    procs = []
    for i, chunk in enumerate([pick[j::4] for j in range(4)]):
        for s in reversed(chunk):
            procs.append((s, i))
    checked = 0
    by = {}
    for s, i in procs:
        by.setdefault(i, []).append(s)
    t0 = time.time()
    for i, ss in by.items():
        run = [Worker(exe, f'det{i}_{j}', td, ['--base', str(s), '--stride', '1', '--count', '1'] + extra) for j, s in enumerate(ss)]
        for w, s in zip(run, ss):
            w.p.wait()
            k = read_keys(w.f['keys'])
            if not k or k[0][1:3] != ks[s][1:3]:
                # either the run is not deterministic, or the code under test keeps state from one call to
                # the next, so that it matters which runs the process did before; a second fresh process tells
                w2 = Worker(exe, f'det{i}_{s}b', td, ['--base', str(s), '--stride', '1', '--count', '1'] + extra)
                w2.p.wait()
                if not k or read_keys(w2.f['keys']) != k or os.environ.get('SIM_STRICT'):
                    die(f'nondeterministic run: seed {s} gives {k[:1]} instead of {ks[s]}')
                print(f'note: seed {s} depends on the runs before it in the same process', file=sys.stderr)
            checked += 1
        if time.time() - t0 > 40:
            break
    return checked


def handle_violation(cid, exe, td, w, extra, tier):
    rc = w.p.returncode
    if rc == 10:
        r = json.load(open(w.f['viol']))
        seed, tape, cls, h = r['seed'], r['tape'], r['class'], r['hash']
    else:
        seed, tape = w.tape()
        cls, h = crash_class(rc), 'crash'
        if rc in (3, 4, 127, 126):
            print(open(w.f['err']).read()[-2000:], file=sys.stderr)
            die(f'worker exit {rc}')
    for i in range(2):
        c2, h2, _ = replay_tape(exe, td, tape, f'gate{i}', extra)
        if c2 != cls or h2 != h:
            print(f'seed {seed}: first {cls} {h}, alone {c2} {h2}', file=sys.stderr)
            return history_violation(cid, exe, td, w, seed, tape, cls, h, extra, tier)
    # minimise, in a fresh process
    mt = f'{td}/min'
    os.makedirs(mt, exist_ok=True)
    open(f'{mt}/tape', 'w').write(' '.join(map(str, tape)))
    budget = 25 if tier == 'quick' else 90
    subprocess.run([exe, '--scratch', f'{mt}/s', '--op', 'minimize', '--tape', f'{mt}/tape', '--class', cls, '--budget', str(budget), '--out', f'{mt}/out'] + extra,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)
    best = tape
    if os.path.exists(f'{mt}/out'):
        t = [int(x) for x in open(f'{mt}/out').read().split()]
        a = replay_tape(exe, td, t, 'm0', extra)
        b = replay_tape(exe, td, t, 'm1', extra)
        if a[0] == cls and a[:2] == b[:2]:
            best = t
    c3, h3, res = replay_tape(exe, td, best, 'final', extra, verbose=True)
    rd = os.path.join(HERE, 'replays')
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, f'{cid}-{seed}.json')
    doc = dict(property=cid, seed=seed, **{'class': cls}, message=res.get('message', ''), hash=h3, original_draws=len(tape), minimised_draws=len(best),
               tape=best, schedule_policy=res.get('policy'), faults=res.get('faults'), trace=res.get('trace', []),
               how_to_replay=f'python3 run.py --replay {path}')
    json.dump(doc, open(path, 'w'), indent=1)
    doc['path'] = path
    return doc


def history_violation(cid, exe, td, w, seed, tape, cls, h, extra, tier):
    """The failing run does not fail alone: the code under test keeps state between calls. The replay is then
    the sequence of seeds that one process has to run, cut down to what is needed."""
    base, stride = w.base, w.stride
    before = list(range(base, seed, stride))
    t0 = time.time()
    budget = 120 if tier == 'quick' else 400
    n = 0

    def fails(pre):
        nonlocal n
        n += 1
        c, hh, s, r = replay_history(exe, td, pre + [seed], f'hist{n}', extra)
        shutil.rmtree(f'{td}/hist{n}', ignore_errors=True)
        return (c, hh, r) if c == cls and s == seed else None
    best = None
    m = 1
    while time.time() - t0 < budget:
        pre = before[-m:] if len(before) >= m else before
        if fails(pre):
            best = pre
            break
        if len(pre) == len(before):
            break
        m *= 4
    if best is None:
        # the whole history does not bring it back either
        if w.p.returncode != 10:
            print(open(w.f['err']).read()[-1500:], file=sys.stderr)
            return None
        best = before
    else:
        size = max(1, len(best) // 2)
        while best and time.time() - t0 < budget * 0.7:
            i, cut = 0, False
            while i < len(best) and time.time() - t0 < budget * 0.7:
                t = best[:i] + best[i + size:]
                if fails(t):
                    best, cut = t, True
                else:
                    i += size
            if size == 1 and not cut:
                break
            size = max(1, size // 2)
    a = fails(best)
    b = fails(best)
    r = json.load(open(w.f['viol'])) if w.p.returncode == 10 else {}
    exact = bool(a and b and a[1] == b[1])
    if a:
        h, r = a[1], a[2]
    rd = os.path.join(HERE, 'replays')
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, f'{cid}-{seed}.json')
    doc = dict(property=cid, seed=seed, **{'class': cls}, message=r.get('message', ''), hash=h, original_draws=len(tape), minimised_draws=len(tape),
               tape=tape, history=best + [seed], original_history=len(before) + 1, exact=exact, schedule_policy=r.get('policy'), faults=r.get('faults'),
               trace=r.get('trace', []), how_to_replay=f'python3 run.py --replay {path}')
    doc['message'] = f"(after {len(best)} earlier runs in the same process) " + doc['message']
    json.dump(doc, open(path, 'w'), indent=1)
    doc['path'] = path
    return doc


def write_evidence(cid, tier, seed, st, keys, exe, td, extra, wall, viol, det, tb):
    c = CHECKS[cid]
    nt = [k for k in keys if k[3]]
    distinct = len(set(k[1] for k in nt))
    scheds = len(set(k[2] for k in keys))
    samples = []
    for k in sorted(nt)[:2]:
        w = Worker(exe, f'smp{k[0]}', td, ['--base', str(k[0]), '--count', '1'] + extra)
        w.p.wait()
        if w.p.returncode == 0:
            s, tape = w.tape()
            _, _, r = replay_tape(exe, td, tape, f'smpr{k[0]}', extra, verbose=True)
            samples.append(dict(seed=k[0], policy=r.get('policy'), steps=r.get('steps'), faults=r.get('faults'), trace=r.get('trace', [])[:25]))
    if viol:
        samples.append(dict(seed=viol['seed'], violation=viol['class'], message=viol['message'][:300]))
    rs = max(st['wall'], 1e-9)
    ev = dict(property=cid, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=1 if viol else 0,
              coverage=dict(evaluations=max(st['runs'], len(keys)), distinct_nontrivial=distinct, rule=c['rule'], samples=samples or ['no completed run'],
                            runs_per_hour=int(st['runs'] / rs * 3600), seeds_per_hour=int(st['runs'] / rs * 3600), simulated_seconds=round(st['sim_ns'] * 1e-9, 4),
                            scheduler_steps=st['steps'], distinct_schedules=scheds,
                            distinct_measure='distinct_nontrivial: hash over every draw, event and I/O operation of a run; distinct_schedules: hash of the sequence of task switches and message arrivals',
                            fault_counts=st['faults'], probes=st['probes'], determinism_reruns=det, build_s=round(tb, 1),
                            real_components=c['real'], stubbed_components=c.get('stub', STUB)),
              assumptions=c.get('assumptions', []))
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{cid}.json', 'w'), indent=1)


STUB = ['MPI library (simulated: sim/simmpi.cpp)', 'file system calls (real files in a private directory, calls interposed: sim/simio.cpp)', 'clocks (simulated)',
        'kokkos/mdspan (stand-in header, not installed here)']


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        bad = 0
        for cid in CHECKS:
            e, t = build(cid)
            print(cid, 'built in %.1fs' % t, flush=True)
        return
    if a and a[0] == '--replay':
        d = json.load(open(a[1]))
        exe, _ = build(d['property'])
        td = tempfile.mkdtemp(prefix='sim-replay-')
        try:
            if d.get('history'):
                c, h, s, r = replay_history(exe, td, d['history'], 'r', [])
            else:
                c, h, r = replay_tape(exe, td, d['tape'], 'r', [], verbose=True)
        finally:
            shutil.rmtree(td, ignore_errors=True)
        for l in r.get('trace', []):
            print('  ', l)
        print('class:', c or 'no violation', '| hash:', h, '| message:', r.get('message', ''))
        ok = c == d['class'] and h == d['hash']
        print('reproduced exactly' if ok else 'NOT reproduced')
        sys.exit(1 if c else 0)
    if len(a) < 2 or a[0] not in CHECKS or a[1] not in ('quick', 'thorough'):
        die(__doc__)
    run_check(a[0], a[1])


if __name__ == '__main__':
    main()
