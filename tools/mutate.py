#!/usr/bin/env python3
"""Self-assessment, used by no check: plant small mechanical mistakes in scratch copies of the code and see which checks notice.
   mutate.py OUTDIR LANES TIME CHECK:FILE[:FROM-TO] ...
Survivors (check exited 0) are appended to OUTDIR/survivors.txt with their diff."""
import os, random, re, shutil, subprocess, sys, threading, queue

OUT, LANES, TIME = sys.argv[1], int(sys.argv[2]), sys.argv[3]
PER = int(os.environ.get('PER', '40'))
W = os.environ.get('MUT_WORKERS', '2')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SUBS = [
    (r'(?<![<>=!\-])<(?![<=>])(?=[ \w(])', '<='), (r'<=', '<'), (r'(?<![<>=!\-])>(?![>=])(?= )', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
    (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r'\+=', '-='), (r'\+=', '='), (r'-=', '+='), (r'\*=', '='),
    (r'\band\b|&&', 'or'), (r'\bor\b|\|\|', 'and'), (r'\bnot\b ?|!(?=[\w(])', ''),
    (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'\b4\b', '3'), (r'\b1\.0?\b', '2.0'), (r'\b0\.5\b', '1.0'),
    (r'MPI_SUM', 'MPI_MAX'), (r'MPI_MAX', 'MPI_MIN'), (r'\bstd::min\b', 'std::max'), (r'\bstd::max\b', 'std::min'), (r'\.begin\(\)', '.end()'), (r'std::abs', ''),
    (r'\balpha\b', 'beta'), (r'_alpha\b', '_beta'), (r'_beta\b', '_alpha'), (r'\brow', 'col'), (r'\bcol', 'row'), (r'\brank\b', '0'), (r'world_rank', '0'), (r'world_size', '1'),
    (r'\bm\b', 'n'), (r'\bn\b', 'm'), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'\bp\b', 'q'), (r'\bq\b', 'p'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\bsize\b', 'size - 1'), (r'bitset_lo_word', 'bitset_hi_word'), (r'bitset_hi_word', 'bitset_lo_word'), (r'recv', 'send'), (r'send', 'recv'), (r'\bcoeff\b', '1.0'),
    (r'1ul+\b', '1'), (r'size_t', 'int'), (r'int64_t', 'int32_t'), (r'uint64_t', 'uint32_t'), (r'double', 'float'),
]


def mutants(path, lo, hi):
    src = open(path).read().split('\n')
    out, conds, block = [], [], False
    for k, l in enumerate(src):
        s = l.strip()
        if re.match(r'#\s*if', s): conds.append(bool(re.match(r'#\s*if\s+0', s)))
        elif conds and re.match(r'#\s*else', s): conds[-1] = False
        elif conds and re.match(r'#\s*endif', s): conds.pop()
        skip = any(conds)
        if '/*' in s and '*/' not in s: block = True
        if block:
            if '*/' in s: block = False
            continue
        if skip or not lo <= k + 1 <= hi or s.startswith(('#', '//', '*', '/*', 'template', 'using', 'typedef', 'static_assert', 'throw', 'enum')) or re.search(r'logger|spdlog|printf|std::cout|runtime_error|assert|reserve\(|duration|clock|shrink_to_fit', s):
            continue
        code = l.split('//')[0]
        for pat, rep in SUBS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + rep + code[m.end():]
                if new != code and not re.search(r'<=(std::|const |[A-Z]\b|uint|int)|size - 1\(|vector<\w+>=|inline .*floats?_|floats_', new):
                    out.append((k, new))
        if s.endswith(';') and re.match(r'^[\w:]+(\(|\[|\.|->| [-+*/|^&]?= |\+\+|--)', s) and not re.match(r'^(return|auto|const|double|int|size_t|std::vector|bool|float|break|continue)\b', s):
            if s.count('(') == s.count(')'):
                out.append((k, re.match(r'\s*', l).group(0) + ';'))
        if s in ('break;', 'continue;'):
            out.append((k, ';'))
        if re.match(r'^(else )?if\s*\(.*\)', s) and s.count('(') == s.count(')') and 'constexpr' not in s:
            m = re.match(r'^(\s*(?:else )?if\s*)\((.*)\)(.*)$', code)
            if m and m.group(3).strip() in ('', '{'):
                out.append((k, f'{m.group(1)}(false and ({m.group(2)})){m.group(3)}'))
                out.append((k, f'{m.group(1)}(true or ({m.group(2)})){m.group(3)}'))
    return src, out


def lane(n, q, lock):
    d = f'{OUT}/lane{n}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo/include', d + '/repo/include')
    shutil.copytree('/repo/src', d + '/repo/src')
    shutil.copytree('/repo/attic', d + '/repo/attic')
    os.makedirs(d + '/verif')
    for x in ('run.py', 'checks.py', 'known-findings.txt'):
        shutil.copy(f'{HERE}/{x}', d + '/verif')
    for x in ('sim', 'harness'):
        shutil.copytree(f'{HERE}/{x}', f'{d}/verif/{x}')
    os.makedirs(d + '/verif/evidence'); os.makedirs(d + '/verif/replays')
    env = dict(os.environ, SIM_REPO=d + '/repo', SIM_BUILD=d + '/build', SIM_TIME=TIME, SIM_WORKERS=W)
    while True:
        try:
            check, f, k, new, orig = q.get_nowait()
        except queue.Empty:
            break
        p = f'{d}/repo/{f}'
        text = open(p).read()
        lines = text.split('\n')
        assert lines[k] == orig, (f, k)
        lines[k] = new
        open(p, 'w').write('\n'.join(lines))
        res = 'survived'
        for c in check.split(','):
            try:
                r = subprocess.run(['timeout', '-k', '5', '400', 'python3', 'run.py', c, 'quick'], cwd=d + '/verif', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                rc = r.returncode
            except Exception as e:
                rc = 99
            if rc == 1: res = 'caught'; break
            if rc == 3: res = 'stillborn'; break
            if rc != 0: res = f'rc{rc}'; break
        open(p, 'w').write(text)
        with lock:
            with open(f'{OUT}/all.txt', 'a') as o:
                o.write(f'{res}\t{check}\t{f}:{k+1}\t{new.strip()}\n')
            if res not in ('caught', 'stillborn'):
                with open(f'{OUT}/survivors.txt', 'a') as o:
                    o.write(f'{res} {check} {f}:{k+1}\n  - {orig.strip()}\n  + {new.strip()}\n')
    shutil.rmtree(d, ignore_errors=True)


def main():
    rng = random.Random(int(os.environ.get('MUT_SEED', '1')))
    jobs = []
    for spec in sys.argv[4:]:
        a = spec.split(':')
        lo, hi = (map(int, a[2].split('-')) if len(a) > 2 else (1, 10**9))
        src, ms = mutants('/repo/' + a[1], lo, hi)
        rng.shuffle(ms)
        for k, new in ms[:PER]:
            jobs.append((a[0], a[1], k, new, src[k]))
    os.makedirs(OUT, exist_ok=True)
    if os.path.exists(OUT + '/all.txt'):  # go on where an earlier run stopped
        done = {tuple(l.rstrip('\n').split('\t')[1:]) for l in open(OUT + '/all.txt')}
        jobs = [j for j in jobs if (j[0], f'{j[1]}:{j[2]+1}', j[3].strip()) not in done]
    qs = queue.Queue()
    for j in jobs:
        qs.put(j)
    print(len(jobs), 'mutants')
    lock = threading.Lock()
    ts = [threading.Thread(target=lane, args=(i, qs, lock)) for i in range(LANES)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
