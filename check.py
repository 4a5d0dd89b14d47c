#!/usr/bin/env python3
"""Decides one property of knuffel by symbolic execution of the code compiled from /repo.

usage: check.py C01 [quick|thorough]        (also --setup, --replay FILE)

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken (the solver's model was
replayed on the native build of the same code and failed there too).  Exit 2 or more: error.
"""
import hashlib, json, os, queue, re, signal, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('KNUFFEL_REPO', '/repo')
WORK = os.path.join(V, 'work')
EVID = os.path.join(V, 'evidence')
sys.path.insert(0, V)
import props

NPROC = int(os.environ.get('KSYM_JOBS', '0')) or min(8, os.cpu_count() or 4)
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
    ENV.pop(k, None)


def die(msg, code=3):
    print('ERROR', msg, flush=True)
    sys.exit(code)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        print(r.stdout[-6000:])
        die('command failed: %s' % ' '.join(cmd))
    return r.stdout


def build_tools():
    """The executor and the replay host; independent of /repo."""
    run(['cargo', 'build', '--release', '--offline', '--manifest-path', V + '/engine/Cargo.toml'],
        env=dict(ENV, CARGO_TARGET_DIR=WORK + '/engine'))
    host = WORK + '/host'
    if not os.path.exists(host) or os.path.getmtime(host) < os.path.getmtime(V + '/host/host.c'):
        run(['gcc', '-O1', '-Wall', '-rdynamic', '-o', host, V + '/host/host.c', '-ldl'])
    return WORK + '/engine/release/ksym', host


def tree_hash():
    return dir_hash(REPO, ('src', 'derive', 'Cargo.toml', 'README.md'))


def dir_hash(root, tops=('src', 'Cargo.toml', 'Cargo.lock')):
    h = hashlib.sha256()
    for top in tops:
        p = os.path.join(root, top)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, dn, fs in os.walk(p) for f in fs if '/target' not in d)
        for f in files:
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def build_harness(feats):
    """Compiles the harness together with /repo's current sources to LLVM IR and a shared object."""
    tgt = WORK + '/target'
    th = tree_hash()
    out = '%s/bin/%s' % (WORK, '+'.join(feats))
    key = th + dir_hash(V + '/harness')
    if os.path.exists(out + '/key') and open(out + '/key').read() == key:
        return out + '/h.ll', out + '/h.so', th
    stamp = tgt + '/tree'
    if os.path.exists(tgt) and (not os.path.exists(stamp) or open(stamp).read() != th):
        for sub in ('release/.fingerprint',):
            d = os.path.join(tgt, sub)
            for n in os.listdir(d) if os.path.isdir(d) else []:
                if n.startswith(('knuffel', 'kharness')):
                    shutil.rmtree(os.path.join(d, n))
    env = dict(ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS='-C no-vectorize-loops -C no-vectorize-slp')
    ll, so = tgt + '/release/deps/kharness.ll', tgt + '/release/libkharness.so'
    for f in (ll, so):
        if os.path.exists(f):
            os.remove(f)
    cmd = ['cargo', 'rustc', '--offline', '--locked', '--release', '--manifest-path', V + '/harness/Cargo.toml',
           '--features', ','.join(feats), '--', '--emit=llvm-ir,link']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode:
        print(r.stdout[-6000:])
        # knuffel alone builds, but code that uses its documented interface is refused by the compiler
        if re.search(r'^error\[E\d+\]|^error: ', r.stdout, re.M) and 'could not compile `kharness`' in r.stdout:
            raise Refused(r.stdout)
        die('command failed: %s' % ' '.join(cmd))
    os.makedirs(tgt, exist_ok=True)
    if not (os.path.exists(ll) and os.path.exists(so)):
        # artifacts are up to date for another feature set: force the last step
        for n in os.listdir(tgt + '/release/.fingerprint'):
            if n.startswith('kharness'):
                shutil.rmtree(os.path.join(tgt, 'release/.fingerprint', n))
        run(cmd, env=env)
    open(stamp, 'w').write(th)
    os.makedirs(out, exist_ok=True)
    shutil.copy(ll, out + '/h.ll')
    shutil.copy(so, out + '/h.so')
    open(out + '/key', 'w').write(key)
    return out + '/h.ll', out + '/h.so', th


class Refused(Exception):
    """The types of the harness, which the documentation allows, do not compile against /repo."""


class Host:
    def __init__(self, host, so):
        self.cmd = [host, so]
        self.p = None

    def run(self, entry, param, tmpl, inp):
        if not self.p:
            self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.p.stdin.write('%s %d %s %s\n' % (entry, param, hx(tmpl), inp or '-'))
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            die('replay host died')
        o, obs, n, reach, msg = l.rstrip('\n').split(' ', 4)
        return dict(o=o, obs=obs, nobs=int(n), reach=int(reach), msg=msg)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()


def hx(t):
    return t.encode().hex() or '-'


def kill_tree(pid):
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                if int(open('/proc/%s/stat' % d).read().rsplit(')', 1)[1].split()[1]) == pid:
                    kill_tree(int(d))
            except OSError:
                pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


class Runner:
    def __init__(self, ll, so, ksym, host, deadline, dump=None):
        self.ll, self.so, self.ksym, self.host = ll, so, ksym, host
        self.deadline = deadline
        self.q = queue.PriorityQueue()
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.live = 0
        self.seq = 0
        self.res = {}        # (entry, param, template) -> aggregated
        self.viol, self.known, self.errors, self.incomplete = [], {}, [], []
        self.validated = 0
        self.samples = []
        self.dump = dump
        self.listed = known_findings()

    def put(self, prio, job):
        with self.lock:
            self.live += 1
            self.seq += 1
            self.q.put((prio, self.seq, job))

    def worker(self):
        env = dict(ENV, KSYM_Z3_TIMEOUT_MS='30000')
        if self.dump:
            env['KSYM_DUMP'] = self.dump
        p = None
        host = Host(self.host, self.so)
        try:
            while not self.stop.is_set():
                try:
                    prio, _, job = self.q.get(timeout=0.05)
                except queue.Empty:
                    with self.lock:
                        if self.live == 0:
                            break
                    continue
                try:
                    left = self.deadline - time.time()
                    if left < 1:
                        self.note(job, 'not started before the deadline')
                        continue
                    if p is None or p.poll() is not None:
                        p = subprocess.Popen([self.ksym, self.ll], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                             stderr=subprocess.DEVNULL, text=True, env=env)
                    e, prm, t = job['k']
                    secs = int(left) or 1
                    p.stdin.write('%s %d %s %d %d %d %d\n' % (e, prm, hx(t), props.FIRST_SECS, secs, props.PARTS, 6))
                    p.stdin.flush()
                    dog = threading.Timer(secs + 60, kill_tree, [p.pid])   # normally the executor stops by itself at the deadline
                    dog.daemon = True
                    dog.start()
                    l = p.stdout.readline()
                    dog.cancel()
                    if not l:
                        p.wait()
                        self.note(job, 'executor ended (%s)' % p.returncode)
                        p = None
                        continue
                    parts = json.loads(l)
                    if isinstance(parts, dict):
                        raise RuntimeError('%s: %s' % (e, parts))
                    for part in parts:
                        self.take(job, part, host)
                    if part.get('exprs', 0) > 2000000:
                        p.kill()
                        p.wait()
                        p = None
                except Exception as ex:      # a defect of the driver, not of knuffel
                    with self.lock:
                        self.errors.append('driver: %r' % ex)
                    self.stop.set()
                finally:
                    with self.lock:
                        self.live -= 1
        finally:
            host.close()
            if p:
                p.kill()
                p.wait()

    def note(self, job, why):
        with self.lock:
            self.incomplete.append('%s[%d] %r: %s' % (job['k'] + (why,)))

    def take(self, job, r, host):
        e, prm, t = job['k']
        if 'lost' in r:
            self.note(job, 'an executor process ended early')
            return
        if 'error' in r:
            with self.lock:
                self.errors.append('%s: %s' % (e, r['error']))
            self.stop.set()
            return
        for rec in r['recs']:
            if self.stop.is_set():
                return
            nat = host.run(e, prm, t, rec['in'])
            if rec['o'] == 'ok':
                if nat['o'] == 'ok' and nat['obs'] == rec['obs'] and nat['reach'] == rec['reach']:
                    with self.lock:
                        self.validated += 1
                        if len(self.samples) < 12 and hash((rec['in'], t)) % 3 == 0 or len(self.samples) < 2:
                            self.samples.append(dict(entry=e, template=t, model_bytes=rec['in'], outcome='ok', reach=rec['reach']))
                else:
                    with self.lock:
                        self.errors.append('encoding and native run disagree: %s %r in=%s sym=%s nat=%s' % (e, t, rec['in'], rec, nat))
                    self.stop.set()
                continue
            if nat['o'] in ('fail', 'panic', 'signal', 'timeout'):
                msg = nat['msg'] if nat['o'] == 'fail' else rec['msg'] if rec['o'] in ('panic', 'fault') else nat['o']
                m = re.match(r'(KF\d+):', msg)
                with self.lock:
                    if m and m.group(1) in self.listed:
                        self.known.setdefault(m.group(1), (e, t, rec['in'], msg))
                        continue
                    self.viol.append(dict(entry=e, param=prm, template=t, input=rec['in'], kind=nat['o'], msg=msg))
                if not os.environ.get('KSYM_GO'):
                    self.stop.set()
            elif rec['o'] in ('limit', 'unsup'):
                self.note(job, '%s: %s' % (rec['o'], rec['msg']))
            else:
                with self.lock:
                    self.errors.append('counterexample does not replay: %s %r in=%s sym=%s nat=%s' % (e, t, rec['in'], rec, nat))
                self.stop.set()
        with self.lock:
            a = self.res.setdefault(job['k'], dict(paths=0, forks=0, decisions=0, instrs=0, queries=0, q_sat=0, q_unsat=0, q_unknown=0, assumed=0,
                                                   dom_unsat=0, dom_sat=0, cache_hits=0, solver_s=0.0, q_max_s=0.0, cpu_s=0.0, reach=0, funcs=set(), done=True))
            for k in ('paths', 'forks', 'decisions', 'assumed', 'dom_unsat', 'dom_sat', 'cache_hits', 'instrs', 'queries', 'q_sat', 'q_unsat', 'q_unknown', 'solver_s'):
                a[k] += r[k]
            a['cpu_s'] += r['wall_s']
            a['q_max_s'] = max(a['q_max_s'], r['q_max_s'])
            a['reach'] |= r['reach']
            a['funcs'].update(r['funcs'])
        if r['q_unknown']:
            self.note(job, '%d solver timeouts' % r['q_unknown'])
        if r['unsup']:
            self.note(job, 'unsupported: %s' % r['unsup'])
        if r['pending']:
            self.note(job, '%d pending paths at the deadline' % r['pending'])

    def go(self, jobs):
        for i, k in enumerate(jobs):
            self.put(i, dict(k=k))
        th = [threading.Thread(target=self.worker) for _ in range(NPROC)]
        for t in th:
            t.start()
        for t in th:
            t.join()


def known_findings():
    d = {}
    f = os.path.join(V, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'KNOWN-FINDING: property=(\w+) (KF\d+): (.*)', l.strip())
            if m:
                d[m.group(2)] = (m.group(1), m.group(3))
    return d


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        return [re.sub(r'::h[0-9a-f]{16}$', '', x) for x in r.stdout.split('\n') if x]
    except OSError:
        return list(names)


def crosscheck(d, limit=200, secs=240):
    """Re-decides dumped queries with two other solvers."""
    fs = sorted(os.listdir(d))[:limit]
    t0, ok, bad, skipped = time.time(), 0, [], 0
    for f in fs:
        p = os.path.join(d, f)
        want = re.search(r':status (\w+)', open(p).read()).group(1)
        for cmd in (['z3-new', '-T:20', p], ['cvc5', '--tlimit=20000', p]):
            if time.time() - t0 > secs:
                skipped += 1
                continue
            o = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
            ans = [l for l in o.split('\n') if l in ('sat', 'unsat')]
            if '(error' in o or not ans:
                skipped += 1
            elif ans[-1] == want:
                ok += 1
            else:
                bad.append((f, cmd[0], ans[-1], want))
    return dict(agreeing=ok, skipped=skipped, disagreeing=bad)


def violation_file(prop, v):
    d = os.path.join(EVID, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]))
    json.dump(dict(property=prop, **v, how='python3 %s/check.py --replay %s' % (V, p)), open(p, 'w'), indent=1, ensure_ascii=False)
    return p


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        build_tools()
        print('tools built')
        return 0
    if a and a[0] == '--replay':
        v = json.load(open(a[1]))
        if v['kind'] == 'compiler':
            print(v['output'])
            return 0
        _, host = build_tools()
        _, so, _ = build_harness(props.PROPS[v['property']]['features'])
        h = Host(host, so)
        print(h.run(v['entry'], v['param'], v['template'], v['input']))
        return 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    spec = props.PROPS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    ksym, host = build_tools()
    try:
        ll, so, th = build_harness(spec['features'])
    except Refused as ex:
        v = dict(kind='compiler', msg='types that the documentation allows do not compile', output=str(ex)[-20000:])
        json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', coverage=dict(
            states=0, transitions=0, traces_validated_against_impl=0, samples=[], errors=[v['msg']]), assumptions=props.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=1),
            open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, violation_file(prop, v)))
        return 1
    t1 = time.time()
    jobs = []
    for grp in spec['groups']:
        for t in grp['quick'] + (grp.get('thorough', []) if tier == 'thorough' else []):
            jobs.append((grp['entry'], grp.get('param', 0), t))
    jobs += props.nearby(spec['groups'], tier == 'quick') + (props.quoted(spec['groups'], tier == 'quick') if prop != 'C20' else []) + props.grown(spec['groups'], tier == 'quick') + props.valued(spec['groups'], tier == 'quick')
    only = os.environ.get('KSYM_ONLY')
    if only:
        jobs = [j for j in jobs if re.search(only, j[0] + ' ' + j[2])]
    jobs = list(dict.fromkeys(jobs))
    limit = float(os.environ.get('KSYM_SECS', 0)) or (props.QUICK_SECS if tier == 'quick' else props.THOROUGH_SECS)
    dump = None
    if tier == 'thorough':
        dd = os.path.join(WORK, 'dump')
        shutil.rmtree(dd, ignore_errors=True)
        os.makedirs(dd)
        dump = dd + ':997'
    r = Runner(ll, so, ksym, host, time.time() + limit, dump)
    r.go(jobs)
    t2 = time.time()
    xc = None
    if dump:
        xc = crosscheck(dd)
        shutil.rmtree(dd)
        if xc['disagreeing']:
            r.errors.append('solvers disagree: %r' % xc['disagreeing'][:3])
    tot = {}
    for x in r.res.values():
        for k, v in x.items():
            if isinstance(v, (int, float)) and k not in ('reach', 'done', 'q_max_s'):
                tot[k] = tot.get(k, 0) + v
    if not r.viol and not r.errors and not only:
        for grp in spec['groups']:
            got = 0
            for k, x in r.res.items():
                if k[0] == grp['entry'] and k[1] == grp.get('param', 0):
                    got |= x['reach']
            miss = [b for b in grp.get('reach', []) if not got >> b & 1]
            if miss and not r.incomplete:
                r.errors.append('vacuous: %s never reached marks %s' % (grp['entry'], miss))
    funcs = set()
    for x in r.res.values():
        funcs |= x['funcs']
    names = demangle(sorted(funcs))
    kn = sorted({re.sub(r'\[[0-9a-f]+\]', '', x.rstrip(':')) for n in names for x in re.findall(r'(?<![A-Za-z_:])knuffel(?:\[[0-9a-f]+\])?::[A-Za-z0-9_:]+', n)})
    viol_paths = [violation_file(prop, v) for v in r.viol]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', coverage=dict(
        states=tot.get('paths', 0), transitions=tot.get('decisions', 0), traces_validated_against_impl=r.validated, samples=r.samples,
        exhaustive=not r.incomplete and not r.viol and not r.errors,
        meaning='states = feasible execution paths of the compiled code; transitions = branch decisions on symbolic data; every path ends in the assertions of the harness, decided for all inputs of the path',
        bounds=spec['bounds'], inputs=[dict(entry=k[0], param=k[1], template=k[2], paths=x['paths'], instructions=x['instrs'], queries=x['queries'], reach=x['reach'], cpu_s=round(x['cpu_s'], 2)) for k, x in sorted(r.res.items())],
        legend=props.LEGEND, incomplete=r.incomplete[:200], outside_bounds=spec.get('outside', props.OUTSIDE),
        symbolic_instructions=tot.get('instrs', 0), solver=subprocess.run([ksym, '--version'], stdout=subprocess.PIPE, text=True).stdout.strip(),
        queries=dict(total=tot.get('queries', 0), sat=tot.get('q_sat', 0), unsat=tot.get('q_unsat', 0), unknown=tot.get('q_unknown', 0),
                     seconds=round(tot.get('solver_s', 0), 2), slowest_s=round(max([x['q_max_s'] for x in r.res.values()] or [0]), 3),
                     answered_from_cached_models=tot.get('cache_hits', 0), answered_by_byte_domains=tot.get('dom_unsat', 0) + tot.get('dom_sat', 0)),
        solver_crosscheck=xc, functions_encoded=len(names), knuffel_functions_encoded=kn[:400], repo_tree_sha256=th,
        build_s=round(t1 - t0, 1), explore_s=round(t2 - t1, 1), known_findings=[v[3] for v in r.known.values()], errors=r.errors[:10]),
        assumptions=props.ASSUMPTIONS + spec.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(r.viol))
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, ensure_ascii=False)
    print('%s %s: %d templates, %d paths, %d queries (%.1f s), %d traces validated, build %.0f s, explore %.0f s, %d incomplete'
          % (prop, tier, len(r.res), tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_s', 0), r.validated, t1 - t0, t2 - t1, len(r.incomplete)))
    if os.environ.get('KSYM_VERBOSE'):
        for k, x in sorted(r.res.items(), key=lambda i: -i[1]['cpu_s']):
            print('  %-8s %8.2f s %7d paths reach %x  %r' % (k[0], x['cpu_s'], x['paths'], x['reach'], k[2]))
        for x in r.incomplete[:20]:
            print('  incomplete', x)
    for k, v in r.known.items():
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, r.listed[k][1]))
    if r.viol:
        for v, p in zip(r.viol, viol_paths):
            print('  %s %r input=%s: %s (%s)' % (v['entry'], v['template'], v['input'], v['msg'], v['kind']))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if r.errors:
        for x in r.errors[:5]:
            print('ERROR', x)
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
