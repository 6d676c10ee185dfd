#!/usr/bin/env python3
"""Decides one property by symbolic execution of the compiled crate.

usage: check.py <property> [--tier quick|thorough] [--only TEXT] [--keep]
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, 'build')
REPO = '/repo'
TC = 'stable-x86_64-unknown-linux-gnu'
sys.path.insert(0, HERE)


class Fatal(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e.update({'RUSTUP_TOOLCHAIN': TC, 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never',
              'CARGO_INCREMENTAL': '0'})
    for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e.update(kw)
    return e


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Fatal('%s failed:\n%s' % (what, p.stdout[-6000:]))
    return p.stdout


def build_engine():
    run(['cargo', 'build', '--release', '--offline', '--target-dir', BUILD + '/engine'],
        HERE + '/engine', env(), 'building the engine')


def source_digest():
    h = hashlib.sha256()
    for root in (REPO, HERE + '/harness'):
        names = ['Cargo.toml', 'Cargo.lock', 'build.rs']
        files = [os.path.join(root, n) for n in names]
        for d, dirs, fs in os.walk(os.path.join(root, 'src')):
            dirs.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if os.path.isfile(f):
                with open(f, 'rb') as fh:
                    h.update(f.encode() + b'\0' + fh.read() + b'\0')
    return h.hexdigest()


def fresh(dirname, digest):
    """drop the crate's own build results when the sources differ from the last build"""
    stamp = os.path.join(dirname, 'stamp')
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != digest:
        for prof in ('release', 'checked', 'shipped'):
            for sub in ('.fingerprint', 'deps', 'incremental'):
                d = os.path.join(dirname, prof, sub)
                if os.path.isdir(d):
                    for n in os.listdir(d):
                        if re.match(r'(lib)?(dockerfile[-_]parser|dfharness|ir-|replay-)', n):
                            p = os.path.join(d, n)
                            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    os.makedirs(dirname, exist_ok=True)
    return stamp


def build_ir(digest):
    d = BUILD + '/ir'
    stamp = fresh(d, digest)
    run(['cargo', 'rustc', '--offline', '--release', '--bin', 'ir', '--', '--emit=llvm-ir',
         '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-C', 'linker=/bin/true'],
        HERE + '/harness', env(CARGO_TARGET_DIR=d), 'compiling the crate to LLVM IR')
    ll = [f for f in os.listdir(d + '/release/deps') if f.startswith('ir-') and f.endswith('.ll')]
    if len(ll) != 1:
        raise Fatal('expected one IR module, found %r' % ll)
    open(stamp, 'w').write(digest)
    return d + '/release/deps/' + ll[0]


def build_native(digest, profile):
    d = BUILD + '/native-' + profile
    stamp = fresh(d, digest)
    run(['cargo', 'build', '--offline', '--profile', profile, '--bin', 'replay'],
        HERE + '/harness', env(CARGO_TARGET_DIR=d), 'compiling the native replay')
    open(stamp, 'w').write(digest)
    return d + '/' + profile + '/replay'


def build_all():
    digest = source_digest()
    res, errs = {}, []

    def go(name, f, *a):
        try:
            res[name] = f(*a)
        except Fatal as e:
            errs.append(str(e))
    ts = [threading.Thread(target=go, args=a) for a in (
        ('engine', build_engine), ('ll', build_ir, digest),
        ('checked', build_native, digest, 'checked'), ('shipped', build_native, digest, 'shipped'))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise Fatal('\n'.join(errs))
    return res


def table(replay):
    t = {}
    for l in subprocess.run([replay, 'list'], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
        i, n = l.split('\t')
        t[n] = int(i)
    return t


def unhex(s):
    return bytes.fromhex(s)


def show(b):
    return b.decode('utf-8', 'backslashreplace')


def replay(binary, lines, timeout):
    """run path lines natively; returns (disagreements and failures, count)"""
    p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        o, e = p.communicate('\n'.join(lines) + '\n', timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'timeout'
    if p.returncode != 0:
        return None, 'exit %d' % p.returncode
    rows, n = [], 0
    for l in o.splitlines():
        f = l.split('\t')
        if f[0] == 'REPLAYED':
            n = int(f[1])
        else:
            rows.append(f)
    if n != len(lines):
        return None, 'replayed %d of %d' % (n, len(lines))
    return rows, n


def known_findings():
    out = []
    p = HERE + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):      # other lines: comments and repaired defects, which suppress nothing
                out.append(json.loads(l))
    return out


def main():
    t0 = time.time()
    args = sys.argv[1:]
    prop = args[0]
    if prop == '--build':
        build_all()
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    only = args[args.index('--only') + 1] if '--only' in args else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import templates
    jobs = templates.jobs(prop, tier)
    if only:
        jobs = [j for j in jobs if only in j.name]
    b = build_all()
    t_build = time.time() - t0
    tab = table(b['shipped'])

    rp = HERE + '/replays/%s.txt' % prop
    if os.path.exists(rp):
        os.remove(rp)
    work = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=BUILD)
    try:
        return decide(prop, tier, seed, jobs, b, tab, work, t0, t_build, '--keep' in args or only)
    finally:
        if '--keep' not in args:
            shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, jobs, b, tab, work, t0, t_build, partial):
    with open(work + '/jobs.txt', 'w') as f:
        for j in jobs:
            f.write('J %d %s\n' % (tab[j.harness], re.sub(r'\s', '_', j.name)))
            for p in j.parts:
                f.write('P ' + ' '.join(p.segs()) + '\n')
    out = work + '/out'
    os.mkdir(out)
    dump = work + '/queries'
    os.mkdir(dump)
    known = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known']
    deadline = 480 if tier == 'quick' else 3 * 3600
    p = subprocess.run([b_engine(), '--ll', b['ll'], '--jobs', work + '/jobs.txt', '--out', out, '--threads',
                        str(min(8, os.cpu_count() or 8)), '--deadline', str(deadline), '--limit', '200000000', '--dump', dump] + ([] if known else ['--grace', '30']),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode not in (0, 2) or not p.stdout.strip():
        raise Fatal('engine: exit %d\n%s' % (p.returncode, (p.stderr or p.stdout)[-4000:]))
    stats = json.loads(p.stdout.strip().splitlines()[-1])
    lines = []
    for fn in sorted(os.listdir(out)):
        if fn.startswith('paths.'):
            lines += open(os.path.join(out, fn)).read().splitlines()
    functions = open(out + '/functions.txt').read().split('\n') if os.path.exists(out + '/functions.txt') else []
    functions = sorted(f for f in functions if f)

    kinds, reach, perjob = {}, {}, {}
    bad, rows = [], []
    for l in lines:
        f = l.split('\t')
        kinds[f[2]] = kinds.get(f[2], 0) + 1
        ji = int(f[0])
        if f[2] not in ('assume',):
            reach[jobs[ji].harness] = reach.get(jobs[ji].harness, 0) | int(f[4], 16)
        k = perjob.setdefault(ji, {})
        k[f[2]] = k.get(f[2], 0) + 1
        rows.append(f)
    problems, violations, incomplete = [], [], []
    # a path that ran past the instruction limit: does the native code end?
    slow = [l for l, f in zip(lines, rows) if f[2] == 'limit']
    normal = [l for l, f in zip(lines, rows) if f[2] in ('ok', 'fail', 'assume', 'panic')]
    if kinds.get('timeout'):
        left = [i for i in range(len(jobs)) if i not in perjob]
        incomplete.append('time limit of %d s reached; %d of %d templates not started, others cut short' % (deadline, len(left), len(jobs)))
    if kinds.get('unsup'):
        ex = [f for f in rows if f[2] == 'unsup']
        incomplete.append('%d paths not decided: %s (e.g. template %s)' % (len(ex), ex[0][3], jobs[int(ex[0][0])].name))
    for k in ('fault',):
        if kinds.get(k):
            ex = next(f for f in rows if f[2] == k)
            problems.append('%d paths ended as %s, e.g. job %s: %s' % (kinds[k], k, jobs[int(ex[0])].name, ex[3]))
    if stats.get('errors'):
        problems.append('engine errors: %s' % str(stats['errors'])[:2000])
    second = second_opinion(dump, seed, 48 if tier == 'quick' else 400)
    if second['disagree']:
        problems.append('cvc5 disagrees with z3: %s' % second['disagree'][:3])
    replayed = 0
    for prof in ('checked', 'shipped'):
        r, n = replay(b[prof], normal, 600)
        if r is None:
            # find the offending line: the process itself died or hung
            culprit = bisect(b[prof], normal)
            if culprit:
                violations.append((culprit.split('\t'), prof, 'the native run %s' % n))
            else:
                problems.append('native replay (%s): %s' % (prof, n))
            continue
        replayed += n
        for f in r:
            same, kind, info, orig = f[0], f[1], f[2], f[3:]
            if kind in ('fail', 'panic'):
                violations.append((orig, prof, 'check %s' % info if kind == 'fail' else 'panic: ' + info))
            elif orig[2] == 'panic' and prof == 'shipped':
                pass  # overflow checks are off in this build; the other build decides
            else:
                problems.append('replay (%s) disagrees with the executor on job %s: executor %s %s, native %s %s, parts %s' % (
                    prof, jobs[int(orig[0])].name, orig[2], orig[3], kind, info, orig[7]))
    t_slow = time.time()
    for l in slow[:40]:
        if violations or time.time() - t_slow > 100:
            break
        r, n = replay(b['shipped'], [l], 20)
        if r is None:
            violations.append((l.split('\t'), 'shipped', 'the native run does not end normally (%s)' % n))
        else:
            k = r[0][1] if r else 'ok'
            if k in ('fail', 'panic'):
                violations.append((l.split('\t'), 'shipped', k))
            else:
                incomplete.append('path over the instruction limit (ends normally when run natively): template %s' % jobs[int(l.split('\t')[0])].name)

    # vacuity: every situation the templates are built to reach must be reached
    if not violations and not incomplete:
        for h, need in templates_need(prop, tier):
            miss = [k for k in need if not (reach.get(h, 0) >> k) & 1]
            if miss and not partial:
                problems.append('harness %s never reached situations %r' % (h, miss))
        for i, j in enumerate(jobs):
            if i not in perjob:
                problems.append('job %s produced no path' % j.name)

    shown, reported = set(), []
    for f, prof, what in violations:
        parts = [unhex(x) for x in f[7].split(',')]
        hit = next((k for k in known if k['harness'] == jobs[int(f[0])].harness and
                    any([bytes.fromhex(x) for x in inp] == parts for inp in k['inputs'])), None)
        if hit:
            if hit['what'] not in shown:
                shown.add(hit['what'])
                print('KNOWN-FINDING: property=%s %s' % (prop, hit['what']))
            continue
        reported.append((f, prof, what))

    wall = time.time() - t0
    samples = []
    seen = set()
    step = max(1, len(rows) // 400)
    for f in rows[(seed * 7) % step if step > 1 else 0::step]:
        h = (f[0], f[2])
        if h in seen or len(samples) >= 12:
            continue
        seen.add(h)
        samples.append({'harness': jobs[int(f[0])].harness, 'template': jobs[int(f[0])].name, 'outcome': f[2],
                        'input': [show(unhex(x))[:200] for x in f[7].split(',')]})
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'wall_s': round(wall, 1),
        'coverage': {
            'states': max(1, int(stats.get('paths', 0))),
            'transitions': max(1, int(stats.get('instructions', 0))),
            'traces_validated_against_impl': replayed,
            'samples': samples or [{'note': 'none'}],
            'detail': {
                'meaning': 'states = path classes (sets of inputs taking the same path), each decided for all its inputs; transitions = LLVM instructions executed symbolically; traces = path classes whose concrete model was run against the natively compiled crate in two build profiles, with equal outcome and equal outputs',
                'templates': len(jobs), 'path_kinds': kinds,
                'symbolic_bytes_per_template': sorted({sum(p.nsym() for p in j.parts) for j in jobs}),
                'input_classes': sum_classes(jobs),
                'decisions': stats.get('decisions'), 'forks': stats.get('forks'),
                'queries_discharged': stats.get('z3_queries'), 'solver_seconds': stats.get('z3_seconds'),
                'queries_redecided_by_cvc5': {k: v for k, v in second.items() if k != 'disagree'},
                'functions_encoded': stats.get('functions_total', len(functions)),
                'crate_functions_encoded': functions,
                'incomplete': incomplete, 'engine_stats': stats, 'build_s': round(t_build, 1),
            },
        },
        'assumptions': [
            'bounds: inputs are those matched by the templates of this property (templates.py); nothing is claimed outside them',
            'the LLVM IR of the crate and its dependencies (rustc, opt-level 1, overflow checks on) means what the executor llsym says it means; every explored path is compared with native execution',
            'std hash seeds and HashMap hashing are replaced by constants; no files, one CPU, no environment',
        ],
    }
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(HERE + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s %s: %d templates, %d path classes %r, %d instructions, %d solver queries (%.1f s), %d native replays, build %.0f s, total %.0f s' % (
        prop, tier, len(jobs), stats.get('paths', 0), kinds, stats.get('instructions', 0), stats.get('z3_queries', 0),
        stats.get('z3_seconds', 0), replayed, t_build, wall))
    if reported:
        rd = HERE + '/replays'
        os.makedirs(rd, exist_ok=True)
        path = '%s/%s.txt' % (rd, prop)
        with open(path, 'w') as f:
            f.write('# property %s violated; each block is one input class with a concrete input,\n# reproduced natively.\n' % prop)
            done = set()
            for r, prof, what in reported[:200]:
                if tuple(r) in done:
                    continue
                done.add(tuple(r))
                f.write('\nharness %s  template %s  build %s  %s\n' % (jobs[int(r[0])].harness, jobs[int(r[0])].name, prof, what))
                for i, x in enumerate(r[7].split(',')):
                    f.write('  part %d: %r\n' % (i, unhex(x)))
                f.write('  replay: printf %%s\\\\n \'%s\' | %s\n' % ('\\t'.join(r), b[prof]))
        r, prof, what = reported[0]
        print('input %r: %s (%s, harness %s)' % ([unhex(x) for x in r[7].split(',')], what, prof, jobs[int(r[0])].harness))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for x in incomplete[:20]:
        print('INCOMPLETE: ' + x)
    if problems:
        for x in problems[:20]:
            print('PROBLEM: ' + x)
        return 2
    return 0


def b_engine():
    return BUILD + '/engine/release/llsym'


def templates_need(prop, tier):
    import templates
    return templates.need(prop, tier)


def second_opinion(d, seed, n):
    """queries z3 decided in this run, put to cvc5 as well: half of them ones z3 found unsatisfiable"""
    import random
    from concurrent.futures import ThreadPoolExecutor
    res = {'sat': 0, 'unsat': 0, 'no_answer': 0, 'disagree': []}
    tool = shutil.which('cvc5')
    if not tool:
        return res
    groups = {'sat': [], 'unsat': []}
    for fn in sorted(os.listdir(d)):
        with open(os.path.join(d, fn)) as f:
            t = f.read()
        m = re.search(r'^; expect (sat|unsat)$', t, re.M)
        if m:
            groups[m.group(1)].append((fn, m.group(1)))
    r = random.Random(seed)
    pick = []
    for k in ('unsat', 'sat'):
        pick += r.sample(groups[k], min(len(groups[k]), n - len(pick) if k == 'sat' else n // 2))

    def one(x):
        try:
            o = subprocess.run([tool, '--lang', 'smt2', '--tlimit=5000', os.path.join(d, x[0])], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=10).stdout.strip().splitlines()
        except (subprocess.TimeoutExpired, OSError):
            o = []
        return x, o[-1] if o else ''
    with ThreadPoolExecutor(8) as ex:
        for (fn, want), got in ex.map(one, pick):
            if got not in ('sat', 'unsat'):
                res['no_answer'] += 1
            elif got != want:
                res['disagree'].append('%s: z3 %s, cvc5 %s' % (fn, want, got))
            else:
                res[got] += 1
    return res


def sum_classes(jobs):
    n = 0
    for j in jobs:
        k = 1
        for p in j.parts:
            k *= p.count()
        n += k
    return '%.3g' % n


def bisect(binary, lines):
    """the first line on which the native run dies or hangs"""
    if len(lines) > 1:
        lo, hi = 0, len(lines)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            r, n = replay(binary, lines[lo:mid], 60)
            if r is None:
                hi = mid
            else:
                lo = mid
        lines = lines[lo:hi]
    if lines:
        r, n = replay(binary, lines, 20)
        if r is None:
            return lines[0]
    return None


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Fatal as e:
        print('ERROR: %s' % e)
        sys.exit(2)
