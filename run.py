#!/usr/bin/env python3
"""Decides one property: builds its drivers from /repo's working tree, runs them under the sanitizers in parallel shards,
merges what their monitors observed, writes evidence/<id>.json and gives the verdict.

  run.py ID [--thorough] [--seed N] [--jobs N]      exit 0 held / 1 violated / 2 no answer
"""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()
DEADLINE = {'quick': 850, 'thorough': 6 * 3600}


def fail(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(d, f)
                if os.path.islink(q) and not os.path.exists(q):
                    continue
                h.update(os.path.relpath(q, p).encode())
                with open(q, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


INCLUDES = ['-I' + V + '/harness', '-I' + V + '/shims', '-I' + REPO + '/include',
            '-I' + REPO + '/vendors/combinations', '-I' + REPO + '/vendors/undirected_graph/source',
            '-I' + REPO + '/vendors/graph-coloring/Header']
BASE = ['-std=c++20', '-w', '-O1', '-g1', '-fno-omit-frame-pointer', '-DFICTION_Z3_SOLVER=1',
        '-DFICTION_ALGLIB_ENABLED=1']
SAN = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize=vptr'],
       'tsan': ['-fsanitize=thread'],
       'plain': ['-O2']}
LIBS = ['-lfmt', '-ltbb', '-lpthread']
ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:strict_init_order=1:'
                        'allocator_may_return_null=0:max_allocation_size_mb=6000:malloc_context_size=12',
           UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=0',
           TSAN_OPTIONS='halt_on_error=0:exitcode=0:report_thread_leaks=0:history_size=4:second_deadlock_stack=1')


def build(job, tree, jobs):
    """returns the path of the binary; the local cache is keyed by everything that goes into it"""
    src = job['src'] if isinstance(job['src'], list) else [job['src']]
    flags = BASE + SAN[job.get('san', 'asan')] + job.get('flags', [])
    libs = LIBS + (['-lz3'] if job.get('z3') else [])
    key = hashlib.sha256((tree + json.dumps([src, flags, libs, REPO])).encode()).hexdigest()[:24]
    out = os.path.join(V, '.build', os.path.splitext(src[0])[0] + '-' + job.get('san', 'asan') + '-' + key)
    if os.path.exists(out):
        return out, None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    units = [os.path.join(V, 'harness', s) for s in src]
    if job.get('gc'):
        d = REPO + '/vendors/graph-coloring/Source'
        units += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cpp')]
    objs, errs = [], []

    def cc(iu):
        i, u = iu
        o = '%s.%d.o' % (tmp, i)
        p = subprocess.run(['g++', *flags, *INCLUDES, '-c', u, '-o', o], capture_output=True, text=True)
        return o, (p.stderr if p.returncode else '')

    with ThreadPoolExecutor(jobs) as ex:
        for o, e in ex.map(cc, list(enumerate(units))):
            objs.append(o)
            if e:
                errs.append(e)
    if not errs:
        p = subprocess.run(['g++', *flags, *objs, '-o', tmp, *libs], capture_output=True, text=True)
        if p.returncode:
            errs.append(p.stderr)
    for o in objs:
        if os.path.exists(o):
            os.remove(o)
    if errs:
        return None, '\n'.join(errs)[:6000]
    os.replace(tmp, out)
    return out, None


FRAME = re.compile(r'^\s*#\d+ 0x[0-9a-f]+ in (.*?) (\S+?):(\d+)', re.M)
TFRAME = re.compile(r'^\s*#\d+ (.*?) (\S+?):(\d+)', re.M)


def simple(fn):
    fn = re.sub(r'<.*', '', fn)
    fn = re.sub(r'\(.*', '', fn).strip()
    return fn.split('::')[-1].split(' ')[-1] or '?'


def short(path):
    for root in (REPO + '/include/', REPO + '/', V + '/'):
        if path.startswith(root):
            return path[len(root):]
    return os.path.basename(path)


def site(block, frame=FRAME):
    fs = frame.findall(block)
    for fn, path, line in fs:
        if path.startswith(REPO):
            return short(path) + ':' + simple(fn)
    for fn, path, line in fs:
        if path.startswith(V):
            return short(path) + ':' + simple(fn)
    return '?'


def reports(err):
    """sanitizer reports in a shard's stderr -> [(key, text)]"""
    r = []
    for m in re.finditer(r'^(\S+?):(\d+):\d+: runtime error: (.*)$', err, re.M):
        kind = re.sub(r'0x[0-9a-f]+|-?\d[\d.e+]*', 'N', m.group(3))
        kind = re.sub(r"'[^']*'", 'T', kind)[:70]
        r.append(('ubsan:%s:%s' % (short(m.group(1)), kind.strip()), m.group(0)))
    for m in re.finditer(r'==\d+==ERROR: AddressSanitizer:? (\S+)(.*?)(?=^SUMMARY|\Z)', err, re.M | re.S):
        r.append(('asan:%s:%s' % (m.group(1).rstrip(':'), site(m.group(0))), m.group(0)[:3000]))
    for m in re.finditer(r'^WARNING: ThreadSanitizer: ([^\n(]*)(.*?)^SUMMARY[^\n]*', err, re.M | re.S):
        parts = re.split(r'^\s*$', m.group(0), flags=re.M)
        s = [x for x in (site(p, TFRAME) for p in parts[:2]) if x != '?'] or [site(m.group(0), TFRAME)]
        r.append(('tsan:%s:%s' % (m.group(1).strip().replace(' ', '-'), '|'.join(sorted(set(s)))), m.group(0)[:3000]))
    for m in re.finditer(r'^(\S+?:\d+): .*?: Assertion `(.*)\' failed\.$', err, re.M):
        r.append(('assert:%s' % m.group(2)[:80], m.group(0)))
    return r


class Shard:
    def __init__(self):
        self.viol, self.count, self.seen, self.samples, self.vcount, self.errors = [], {}, {}, [], {}, []


def run_bin(binary, args, out, err, wall):
    with open(err, 'ab') as eh:
        try:
            p = subprocess.run([binary, *args, '--out', out], stdout=subprocess.DEVNULL, stderr=eh, env=ENV, timeout=wall,
                               cwd=os.path.dirname(out))
            return p.returncode
        except subprocess.TimeoutExpired:
            return 'timeout'


def shard(job, binary, seed, tier, i, n, work, tag):
    """runs every n-th case; a case that kills the process is recorded and the shard goes on behind it"""
    sh = Shard()
    suites = job.get('suites')
    if not suites:
        suites = [l.split()[0] for l in
                  subprocess.run([binary, '--list'], capture_output=True, text=True, env=ENV).stdout.splitlines()]
    for s in suites:
        start, deaths = i, 0
        while True:
            out = os.path.join(work, '%s-%s-%d-%d.out' % (tag, s, i, start))
            err = out[:-4] + '.err'
            args = ['--seed', str(seed), '--from', str(start), '--step', str(n), '--suite', s,
                    '--scale', str(job.get('tscale', job.get('scale', 1)) if tier == 'thorough' else job.get('scale', 1))] + (['--thorough'] if tier == 'thorough' else [])
            left = DEADLINE[tier] - (time.time() - T0)
            if left <= 0:
                sh.errors.append('out of time in suite ' + s)
                return sh
            rc = run_bin(binary, args, out, err, left)
            txt = open(out, errors='replace').read() if os.path.exists(out) else ''
            etxt = open(err, errors='replace').read()
            done, died = False, None
            for l in txt.splitlines():
                f = l.split('\t')
                if f[0] == 'SAMPLE':
                    sh.samples.append(f[1])
                elif f[0] == 'VIOL':
                    sh.viol.append(dict(key=f[1], suite=f[2], case=int(f[3]), detail=f[4] if len(f) > 4 else '', binary=binary))
                elif f[0] == 'COUNT':
                    sh.count[f[1]] = sh.count.get(f[1], 0) + int(f[2])
                elif f[0] == 'D':
                    sh.seen.setdefault(f[1], set()).add(f[2])
                elif f[0] == 'VCOUNT':
                    sh.vcount[f[1]] = sh.vcount.get(f[1], 0) + int(f[2])
                elif f[0] == 'DIED':
                    died = (f[1], f[2], int(f[3]), f[4] if len(f) > 4 else '')
                elif f[0] == 'DONE':
                    done = True
            case = died[2] if died else -1
            reps = reports(etxt)
            for k, t in reps:
                sh.viol.append(dict(key=k, suite=s, case=case, detail=t, binary=binary))
            if rc == 'timeout':
                sh.errors.append('wall-clock limit hit in suite %s' % s)
                return sh
            if done:
                if rc != 0:
                    sh.errors.append('suite %s: exit %s after completing' % (s, rc))
                break
            if died is None:
                sh.errors.append('suite %s: exit %s without a report: %s' % (s, rc, etxt[-500:]))
                break
            # every dead case counts as an execution
            sh.count['cases.' + s] = sh.count.get('cases.' + s, 0) + max(0, (case - start) // n + 1)
            if died[0] == 'hang':
                # a CPU-time limit; believed only if the case alone hits it again
                out2 = out[:-4] + '-again.out'
                rc2 = run_bin(binary, ['--seed', str(seed), '--suite', s, '--case', str(case)] +
                              (['--thorough'] if tier == 'thorough' else []), out2, out2[:-4] + '.err', left)
                if rc2 == 78:
                    sh.viol.append(dict(key='hang:' + s, suite=s, case=case, detail='no result within the CPU limit: ' + died[3], binary=binary))
                else:
                    sh.errors.append('suite %s case %d hit the CPU limit once' % (s, case))
            elif not any(k.split(':')[0] in ('asan', 'assert') for k, _ in reps):
                sh.viol.append(dict(key='%s:%s' % (died[0], s), suite=s, case=case, detail=(died[3] + ' | ' + etxt[-1500:]), binary=binary))
            else:
                for v in sh.viol:
                    if v['case'] == case and v['suite'] == s and died[3] not in v['detail']:
                        v['detail'] = died[3] + ' | ' + v['detail']
            deaths += 3 if died[0] == 'hang' else 1
            if deaths >= 6:
                break
            start = case + n
    return sh


def known():
    r = []
    p = os.path.join(V, 'known_findings.txt')
    for l in open(p):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
        if m:
            r.append(m.groups())
    return r


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = 'thorough' if '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(a[a.index('--seed') + 1] if '--seed' in a else os.environ.get('VERIF_SEED', '1') or 1)
    jobs = int(a[a.index('--jobs') + 1]) if '--jobs' in a else min(8, os.cpu_count() or 4)
    conf = json.load(open(os.path.join(V, 'checks.json')))
    if pid not in conf:
        fail('unknown property ' + pid)
    c = conf[pid]
    ev = os.path.join(V, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    work = os.path.join(V, 'out', '%s-%d' % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    tree = tree_hash([REPO + '/include', REPO + '/vendors', V + '/harness', V + '/shims'])
    js = [j for j in c['jobs'] if tier == 'thorough' or not j.get('thorough_only')]
    with ThreadPoolExecutor(jobs) as ex:
        bins = list(ex.map(lambda j: build(j, tree, jobs), js))
    for (b, e), j in zip(bins, js):
        if b is None:
            fail('%s: %s does not compile against %s:\n%s' % (pid, j['src'], REPO, e))
    built = time.time() - T0
    tasks = []
    seeds = [seed] if tier == 'quick' else [seed, seed + 1000, seed + 2000]
    for k, ((b, _), j) in enumerate(zip(bins, js)):
        n = j.get('shards', jobs)
        for sd in seeds:
            for i in range(n):
                tasks.append((j, b, sd, tier, i, n, work, 'j%d-s%d' % (k, sd)))
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda t: shard(*t), tasks))
    viol, count, seen, samples, errors, vc = [], {}, {}, [], [], {}
    for s, t in zip(res, tasks):
        for v in s.viol:
            v['seed'] = t[2]
            viol.append(v)
        errors += s.errors
        samples += s.samples
        for k, x in s.count.items():
            count[k] = count.get(k, 0) + x
        for k, x in s.seen.items():
            seen.setdefault(k, set()).update(x)
        for k, x in s.vcount.items():
            vc[k] = vc.get(k, 0) + x
    classes = {}
    for v in viol:
        classes.setdefault(v['key'], []).append(v)
    kn = [(k, d) for p, k, d in known() if p == pid]
    unlisted = {k: vs for k, vs in classes.items() if k not in [x for x, _ in kn]}
    evals = sum(x for k, x in count.items() if k.startswith('cases.'))
    nd = sum(len(x) for x in seen.values())
    evidence = dict(property=pid, tier=tier, seed=seed, level='exploration',
                    coverage=dict(evaluations=evals, distinct_nontrivial=nd, rule=c['rule'], samples=samples[:6],
                                  observed={k: x for k, x in sorted(count.items()) if not k.startswith('cases.')},
                                  cases_per_suite={k[6:]: x for k, x in sorted(count.items()) if k.startswith('cases.')},
                                  distinct_per_suite={k: len(x) for k, x in sorted(seen.items())},
                                  builds=sorted({j.get('san', 'asan') for j in js}), build_s=round(built, 1)),
                    assumptions=c.get('assumptions', []), wall_s=round(time.time() - T0, 1), violations=len(unlisted))
    json.dump(evidence, open(ev, 'w'), indent=1)
    for k, d in kn:
        if k in classes:
            print('KNOWN-FINDING: property=%s %s' % (pid, d))
        else:
            print('note: the listed finding %s was not observed in this run' % k)
    for k, vs in list(unlisted.items())[:12]:
        v = vs[0]
        rp = os.path.join(V, 'out', '%s-%s.replay' % (pid, re.sub(r'[^A-Za-z0-9]+', '_', k)[:60]))
        with open(rp, 'w') as fh:
            fh.write('property %s\nkey %s\noccurrences %d\nsuite %s case %d seed %d\n' % (pid, k, max(len(vs), vc.get(k, 0)), v['suite'], v['case'], v['seed']))
            fh.write('replay: %s --seed %d --suite %s --case %d --verbose%s\n\n' % (v['binary'], v['seed'], v['suite'], v['case'], ' --thorough' if tier == 'thorough' else ''))
            for x in vs[:3]:
                fh.write(x['detail'].replace('\\n', '\n') + '\n\n')
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('  %s: %s' % (k, v['detail'][:400]))
    print('%s %s: %d executions, %d distinct, %d violation classes, build %.0f s, total %.0f s' %
          (pid, tier, evals, nd, len(unlisted), built, time.time() - T0))
    if '--keep' not in a:
        shutil.rmtree(work, ignore_errors=True)
    if unlisted:
        sys.exit(1)
    if errors:
        fail('; '.join(errors[:5]))
    if evals == 0 or nd < c.get('min_distinct', 2):
        fail('the monitors observed too little (%d executions, %d distinct)' % (evals, nd))
    sys.exit(0)


if __name__ == '__main__':
    main()
