"""Shared machinery of the checks: builds the engine, the code generator and the harness bitcode from /repo's working
tree, runs the symbolic engine over the harness entries, validates samples and violations against the real code compiled
natively, and writes the evidence."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = os.path.join(VERIF, '.build')
ENV = dict(os.environ, GLIBC_TUNABLES='glibc.malloc.hugetlb=1', RUSTUP_TOOLCHAIN='1.75.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
    ENV.pop(k, None)


class Inconclusive(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=600, ok=True):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    if ok and p.returncode != 0:
        raise Inconclusive('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), p.stdout[-4000:]))
    return p


class lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, 'rb') as f:
            h.update(p.encode() + b'\0' + f.read() + b'\0')
    return h.hexdigest()[:16]


def engine():
    """path of the symbolic engine, compiled from /verif/engine when its sources changed"""
    src = sorted(glob.glob(VERIF + '/engine/*'))
    out = os.path.join(B, 'symrs-' + digest(src))
    with lock('engine'):
        if not os.path.exists(out):
            sh(['bash', VERIF + '/engine/build.sh', out + '.tmp'])
            os.rename(out + '.tmp', out)
    return out


def cli():
    """path of the code generator built from /repo/cli as it is now"""
    with lock('cli'):
        sh(['cargo', 'build', '--offline', '--quiet', '--target-dir', B + '/cli', '--manifest-path', REPO + '/cli/Cargo.toml'])
    return B + '/cli/debug/clibri'


def generate(args, cwd, outs):
    """runs the generator; it exits with 0 even when it fails, so the files decide"""
    for o in outs:
        p = os.path.join(cwd, o)
        if os.path.exists(p):
            os.remove(p)
    r = sh([cli()] + args, cwd=cwd, timeout=60)
    for o in outs:
        if not os.path.exists(os.path.join(cwd, o)):
            raise Inconclusive('the generator did not write %s:\n%s' % (o, r.stdout[-2000:]))
    return r.stdout


def workdir(name):
    d = os.path.join(B, 'w', name)
    os.makedirs(d, exist_ok=True)
    return d


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, encoding='utf-8').read() == text:
        return
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)


def mirror_plain(src, dst):
    """copies a crate, touching only files that changed"""
    for root, _, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            put(os.path.join(dst, os.path.relpath(p, src)), open(p, encoding='utf-8').read())


def mirror(src, dst):
    """copies a harness crate together with the common symbolic interface"""
    mirror_plain(src, dst)
    put(os.path.join(dst, 'src/sym.rs'), open(VERIF + '/harness/common/sym.rs', encoding='utf-8').read())


NOINLINE = '-C llvm-args=-inline-threshold=-10000 -C llvm-args=-inlinehint-threshold=-10000 -C llvm-args=-inlinecold-threshold=-10000'.split()


def bitcode(d):
    with lock('bc-' + os.path.basename(d)):
        sh(['cargo', 'rustc', '--lib', '--offline', '--quiet', '--release', '--target-dir', d + '/t', '--', '--emit=llvm-bc', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'] + NOINLINE, cwd=d)
    r = glob.glob(d + '/t/release/deps/h.bc')
    if len(r) != 1:
        raise Inconclusive('no bitcode in ' + d)
    return r[0]


def native(d):
    with lock('nat-' + os.path.basename(d)):
        sh(['cargo', 'build', '--bin', 'replay', '--features', 'native', '--offline', '--quiet', '--release', '--target-dir', d + '/n'], cwd=d)
    return d + '/n/release/replay'


def known_findings():
    p = VERIF + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def replay_native(binary, entry, inputs, deep, timeout=60):
    """runs the natively compiled harness on concrete inputs: (how, ok, reach, output)"""
    f = os.path.join(B, 'in-%d-%s-%d' % (os.getpid(), entry, time.monotonic_ns()))
    with open(f, 'w') as o:
        for i in inputs:
            o.write('c %d\n' % i['c'] if 'c' in i else 'b %s\n' % i['b'])
    scratch = f + '.d'
    os.makedirs(scratch)
    try:
        try:
            p = subprocess.run([binary, entry, f], cwd=scratch, env=dict(ENV, SYM_DEEP=str(deep)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', preexec_fn=_limits)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            return ('hang', False, '', (e.stdout or b'').decode(errors='replace')[-2000:])
    finally:
        os.remove(f)
        shutil.rmtree(scratch, ignore_errors=True)
    m = re.findall(r'SYM-END (\S+) (ok|bad) reach=(\S*)', out)
    if not m or rc < 0:
        return ('signal' if rc < 0 else 'died', False, '', out[-2000:])
    return (m[0][0], m[0][1] == 'ok', m[0][2], out[-3000:])


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))


class Run:
    """one check: collects the results of the entries and decides the outcome"""

    def __init__(self, prop, deep):
        self.prop, self.deep, self.t0 = prop, deep, time.time()
        self.entries, self.viol, self.problems, self.samples, self.functions = [], [], [], [], set()
        self.validated = 0
        self.assumptions, self.bounds = [], []
        self.stop_at, self.skipped, self.kf = None, [], [k for k in known_findings()['findings'] if k['property'] == prop]
        self.deadline = self.t0 + (780 if not deep else 6 * 3600)
        self.replays = os.path.join(B, 'replays')
        os.makedirs(self.replays, exist_ok=True)

    # -------------------------------------------------------- Rust harnesses
    def rust(self, d, entries, pool=4, workers=4):
        """entries: list of dicts: name, reach (labels that must be reached), time, opts"""
        with ThreadPoolExecutor(3) as ex:
            e, b, n = ex.submit(engine), ex.submit(bitcode, d), ex.submit(native, d)
            e, b, n = e.result(), b.result(), n.result()
        with ThreadPoolExecutor(pool) as ex:
            rs = list(ex.map(lambda x: self._one(e, b, n, d, x, workers), entries))
        return rs

    # -------------------------------------------------------- TypeScript harnesses
    def ts(self, d, entries, pool=8):
        node = shutil.which('node') or '/usr/bin/node'
        with ThreadPoolExecutor(pool) as ex:
            return list(ex.map(lambda x: self._one([node, '--max-old-space-size=3000', VERIF + '/engine-ts/run.js'], d, d + '/native.js', d, x, 1), entries))

    def known(self, entry, msg):
        return next((k for k in self.kf if k['entry_re'] and re.fullmatch(k['entry_re'], entry) and k['message'] == msg), None)

    def _one(self, eng, bc, nat, d, x, workers):
        name = x['name']
        if self.stop_at and time.time() > self.stop_at:
            self.skipped.append(name)
            return
        pre = os.path.join(d, 'o-%s-%s' % (self.prop, name))
        limit = x.get('time', 600 if not self.deep else 3000)
        for s in ('.json', '.viol', '.smp'):
            if os.path.exists(pre + s):
                os.remove(pre + s)
        cmd = (eng if isinstance(eng, list) else [eng]) + ['--entry', name, '--json', pre + '.json', '--viol', pre + '.viol', '--samples', pre + '.smp', '--time', str(limit), '--workers', str(x.get('workers', workers)), '--param', str(int(self.deep))] + x.get('opts', []) + [bc]
        with open(pre + '.log', 'w') as log:
            p = subprocess.Popen(cmd, env=ENV, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        done, bad, count, killed = 0, 0, {}, False
        while True:
            ended = p.poll() is not None
            lines = open(pre + '.viol').read().split('\n')[:-1] if os.path.exists(pre + '.viol') else []
            for v in map(json.loads, lines[done:]):
                done += 1
                k = (v['kind'], v['msg'])
                count[k] = count.get(k, 0) + 1
                if count[k] > 3:
                    continue
                how, ok, reach, out = replay_native(nat, name, v['inputs'], int(self.deep))
                v.update(entry=name, dir=d, replay_how=how, replay_out=out)
                # an oversized allocation is a violation of the limit whatever happens afterwards
                if ok:
                    self.problems.append('%s: the solver reports "%s: %s" but the native replay ends with %s: %s' % (name, v['kind'], v['msg'][:300], how, json.dumps(v['inputs'])[:400]))
                    continue
                bad += 1
                self.viol.append(v)
                if not self.known(name, v['msg']) and not self.stop_at:
                    self.stop_at = time.time() + 20
            if ended:
                break
            if time.time() > (self.stop_at or self.deadline) and not killed:
                killed = time.time()
                p.terminate()
            if killed and time.time() > killed + 10:
                os.killpg(p.pid, signal.SIGKILL)
            time.sleep(0.1)
        if killed:
            self.skipped.append(name)
        try:
            j = json.load(open(pre + '.json'))
        except Exception:
            if not killed:
                self.problems.append('%s: the engine died (%s): %s' % (name, p.returncode, open(pre + '.log').read()[-500:]))
            elif not self.stop_at:
                self.problems.append('%s: exploration did not finish within the time of the check' % name)
            return
        self.functions.update(f for f in j.pop('functions'))
        smp = [json.loads(l) for l in open(pre + '.smp')]
        self.entries.append(j)
        if j['errors'] or j['unknown']:
            self.problems.append('%s: engine error: %s' % (name, j['error']))
        elif (j['timeouts'] or killed) and not bad:
            if not self.stop_at:
                self.problems.append('%s: exploration did not finish within its time (%d paths)' % (name, j['paths']))
        elif not bad or j['violations'] < j['paths']:
            got = dict((a, c) for a, c in j['reach'])
            for l in x.get('reach', [1]):
                if not got.get(l) and not bad and not killed:
                    self.problems.append('%s: label %d is not reached: the check would be vacuous' % (name, l))
        if killed:
            return
        for s in smp[:x.get('validate', 6)]:
            how, ok, reach, out = replay_native(nat, name, s['inputs'], int(self.deep))
            if not ok or how != s['end'] or reach != s['reach'].strip(','):
                self.problems.append('%s: a path of the engine (%s, %s) does not replay natively (%s, %s): %s\n%s' % (name, s['end'], s['reach'], how, reach, json.dumps(s['inputs'])[:600], out[-600:]))
            else:
                self.validated += 1
                if len(self.samples) < 12:
                    self.samples.append({'entry': name, 'end': s['end'], 'inputs': s['inputs'][:12]})

    # -------------------------------------------------------- outcome
    def finish(self, extra=None):
        seen, new, fresh = {}, 0, {}
        for v in self.viol:
            k = self.known(v['entry'], v['msg'])
            if k:
                seen[k['id']] = k
            else:
                fresh.setdefault((v['kind'], v['msg']), v)
        for k in seen.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        for (kind, msg), v in list(fresh.items())[:10]:
            new += 1
            path = os.path.join(self.replays, '%s-%d.json' % (self.prop, new))
            json.dump({'property': self.prop, 'entry': v['entry'], 'dir': v['dir'], 'kind': kind, 'message': msg, 'stack': v.get('stack'), 'inputs': v['inputs'], 'deep': int(self.deep), 'native': v['replay_how'], 'output': v['replay_out']}, open(path, 'w'), indent=1)
            print('  %s: %s: %s (native replay: %s)' % (v['entry'], kind, msg[:300], v['replay_how']))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        tot = lambda k: sum(e.get(k, 0) for e in self.entries)
        own = sorted(f for f in self.functions if self.own(f))
        cov = {
            'states': int(tot('paths')), 'transitions': int(tot('forks') + tot('queries')), 'traces_validated_against_impl': self.validated, 'samples': self.samples,
            'exhaustive': False,
            'explanation': 'states: execution paths explored to their end; transitions: branch decisions discharged by the solver plus path splits. Every path stands for all values of its symbolic inputs.',
            'entries': [{k: e.get(k) for k in ('entry', 'paths', 'assumed_out', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'instructions', 'obligations', 'max_symbolic_bytes', 'reach', 'wall_s')} for e in self.entries],
            'queries': int(tot('queries')), 'unsat': int(tot('unsat')), 'sat': int(tot('sat')), 'unknown': int(tot('unknown')), 'solver_s': round(tot('solver_s'), 2), 'instructions': int(tot('instructions')), 'obligations': int(tot('obligations')),
            'functions_encoded': len(self.functions), 'functions_of_clibri': own, 'bounds': self.bounds,
        }
        if extra:
            cov.update(extra)
        if self.skipped:
            cov['stopped_early'] = self.skipped
        ev = {'property': self.prop, 'tier': 'thorough' if self.deep else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': new}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.prop), 'w'), indent=1)
        for p in self.problems[:20]:
            print('INCONCLUSIVE %s: %s' % (self.prop, p))
        print('%s: %d entries, %d paths, %d queries (%.1f s in the solver), %d paths replayed natively, %d violations, %d known findings, %.1f s' % (self.prop, len(self.entries), tot('paths'), tot('queries'), tot('solver_s'), self.validated, new, len(seen), time.time() - self.t0))
        if new:
            return 1
        if self.problems:
            return 3
        return 0

    @staticmethod
    def own(f):
        return ('h::' in f and not re.search(r'h::(entry|sym|model)', f.split(' as ')[0])) or 'proto' in f or re.match(r'[pc]::', f) is not None
