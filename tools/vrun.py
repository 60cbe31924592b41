#!/usr/bin/env python3
"""Runs one property's check: builds library + harness from /repo's working tree,
runs the workload in shards under a sanitizer, collects violations, writes evidence.

usage: vrun.py ID [--tier quick|thorough] [--seed N]
       vrun.py replay FILE
exit 0: held on everything explored; 1: violation; 2: error; 3: inconclusive"""
import sys, os, json, subprocess, time, re, shutil, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS

VERIF = vbuild.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')

def env():
    e = {k: v for k, v in os.environ.items() if k in ('HOME', 'USER', 'VH_TIME', 'VH_TRACE', 'VERIF_REPO')}
    e.update(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC')
    e['ASAN_OPTIONS'] = ('abort_on_error=0:exitcode=66:detect_leaks=0:handle_abort=1:allocator_may_return_null=0:'
                         'max_allocation_size_mb=2048:hard_rss_limit_mb=2500:malloc_context_size=12:fast_unwind_on_malloc=1:'
                         'detect_odr_violation=0:quarantine_size_mb=64')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=66'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:ignore_noninstrumented_modules=1'
    e['ASAN_SYMBOLIZER_PATH'] = '/usr/bin/llvm-symbolizer'
    return e

def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+)(?: note~(\S+))? :: (.*)$', line.strip())
                if m and m.group(1) == prop:
                    out.append(dict(key=m.group(2), note=m.group(3), what=m.group(4)))
    return out

def match_known(known, v):
    for k in known:
        if re.fullmatch(k['key'], v['key']) and (not k['note'] or re.search(k['note'], v.get('note', '') + ' ' + v.get('msg', ''))):
            return k
    return None

def read_jsonl(path):
    out = []
    try:
        with open(path, errors='replace') as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
    except OSError:
        pass
    return out

def sanitizer_key(err):
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        kind = m.group(1)
    m2 = re.search(r'runtime error: (.*)', err)
    if not kind and m2:
        kind = 'ub:' + re.sub(r"0x[0-9a-f]+|-?\d+|'[^']*'", '#', m2.group(1))[:60].strip().replace(' ', '_')
    m3 = re.search(r'WARNING: ThreadSanitizer: ([^(\n]+)', err)
    if not kind and m3:
        kind = 'tsan:' + m3.group(1).strip().replace(' ', '_')
    if not kind:
        m4 = re.search(r'(hard rss limit exhausted|ThreadSanitizer: [\w-]+|terminate called[^\n]*)', err)
        kind = m4.group(1).replace(' ', '_') if m4 else 'unknown'
    fn = ''
    for m in re.finditer(r'^\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?) (?:/|\(|<)', err, re.M):
        f = m.group(1)
        if 'vmime::' in f or 'punycode' in f or 'utf8::' in f:
            f = re.sub(r'\(.*', '', f)
            f = re.sub(r'<[^<>]*>', '', f)
            f = re.sub(r'<[^<>]*>', '', f)
            fn = f.split(' ')[-1]
            if not fn.startswith('std::'):
                break
    return 'san:%s:%s' % (kind, fn or '?')

class ShardRunner:
    stop = False   # a confirmed hang was found: the others need not confirm theirs
    def __init__(self, prop, cfg, exe, tier, seed, shard, nshards, wdir):
        self.__dict__.update(locals())
        self.violations = []
        self.ends = []
        self.error = None
        self.inconclusive = []

    def base(self):
        s = os.path.join(self.wdir, 'scratch%d' % self.shard)
        os.makedirs(s, exist_ok=True)
        return [self.exe, '--seed', str(self.seed), '--tier', self.tier, '--scratch', s]

    def one(self, args, tag):
        out = os.path.join(self.wdir, 'out-%d-%s.jsonl' % (self.shard, tag))
        errp = os.path.join(self.wdir, 'err-%d-%s.txt' % (self.shard, tag))
        for p in (out, errp):
            if os.path.exists(p):
                os.remove(p)
        with open(errp, 'wb') as ef:
            p = subprocess.Popen(self.base() + ['--out', out] + args, stdout=ef, stderr=ef, env=env(), cwd=self.wdir)
            rc = p.wait()
        with open(errp, errors='replace') as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            err = f.read(200000) if n < 400000 else f.read(200000)
        return rc, read_jsonl(out), err

    def run(self):
        resume = []
        restarts = 0
        harness_errors = 0
        extra = ['--shard', str(self.shard), '--nshards', str(self.nshards)]
        if self.cfg.get('scale') and self.tier == 'quick':
            extra += ['--scale', str(self.cfg['scale'])]
        if self.cfg.get('only'):
            extra += ['--only', self.cfg['only']]
        while True:
            rc, recs, err = self.one(extra + resume, 'r%d' % restarts)
            end = [r for r in recs if r['t'] == 'end']
            self.violations += [r for r in recs if r['t'] == 'violation']
            if rc == 0 and end:
                self.ends += end
                return
            crash = [r for r in recs if r['t'] == 'crash']
            hang = [r for r in recs if r['t'] == 'hang']
            if hang:
                h = hang[-1]
                if ShardRunner.stop:
                    return
                # confirm once, alone
                rc2, recs2, err2 = self.one(['--replay', h['suite'], str(h['idx'])], 'h%d' % restarts)
                if any(r['t'] == 'hang' for r in recs2):
                    h['key'] = 'hang:%s' % h['suite']
                    h['msg'] = 'case did not finish within its CPU budget (%s s), confirmed by a second run' % h['limit']
                    self.violations.append(h)
                    ShardRunner.stop = True
                    return
                elif rc2 == 0:
                    self.inconclusive.append('time limit in %s:%s, not confirmed' % (h['suite'], h['idx']))
                nxt = h
            elif crash:
                c = crash[-1]
                c['key'] = sanitizer_key(err)
                i = err.find('ERROR: AddressSanitizer')
                if i < 0: i = err.find('runtime error')
                if i < 0: i = err.find('WARNING: ThreadSanitizer')
                i = max(0, i - 200)
                c['msg'] = err[i:i + 3500]
                self.violations.append(c)
                nxt = c
            else:
                harness_errors += 1
                if harness_errors > 1:
                    self.error = 'shard %d: exit %s without a report\n%s' % (self.shard, rc, err[-3000:])
                    return
                continue
            restarts += 1
            if restarts > self.cfg.get('max_restarts', 25):
                self.inconclusive.append('too many restarts')
                return
            resume = ['--resume', nxt['suite'], str(int(nxt['idx']) + 1)]

def write_evidence(prop, data):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(data, f, indent=1)
    os.replace(p + '.tmp', p)

def check(prop, tier, seed):
    t0 = time.time()
    cfg = CHECKS[prop]
    wdir = os.path.join(VERIF, 'work', prop)
    if os.path.isdir(wdir):
        shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir, exist_ok=True)
    replays = os.path.join(VERIF, 'work', 'replays')
    os.makedirs(replays, exist_ok=True)
    known = load_known(prop)
    runs = cfg.get('runs') or [dict(harness=cfg['harness'], flavor=cfg.get('flavor', 'asan'), extra=cfg.get('extra', ()))]
    viols, ends, errors, inconc, build_s = [], [], [], [], 0.0
    for ri, run in enumerate(runs):
        if run.get('tier') and run['tier'] != tier:
            continue
        c = dict(cfg)
        c.update(run)
        tb = time.time()
        try:
            exe = vbuild.build(c.get('flavor', 'asan'), c['harness'], c.get('extra', ()))
        except vbuild.BuildError as e:
            sys.stderr.write('BUILD FAILED\n%s\n' % e)
            return 2
        build_s += time.time() - tb
        n = c.get('shards', 8)
        rdir = os.path.join(wdir, 'run%d' % ri)
        os.makedirs(rdir, exist_ok=True)
        rs = [ShardRunner(prop, c, exe, tier, seed, i, n, rdir) for i in range(n)]
        ths = [threading.Thread(target=r.run) for r in rs]
        for t in ths: t.start()
        for t in ths: t.join()
        for r in rs:
            for v in r.violations:
                v['run'] = ri
            viols += r.violations
            ends += r.ends
            inconc += r.inconclusive
            if r.error:
                errors.append(r.error)
    # classify
    new, knownhit = {}, {}
    for v in viols:
        k = match_known(known, v)
        if k:
            knownhit.setdefault(k['key'] + (k['note'] or ''), (k, []))[1].append(v)
        else:
            new.setdefault(v['key'], []).append(v)
    evals = sum(e['evals'] for e in ends)
    distinct = set()
    counters, seen, samples, rule, assume = {}, {}, {}, '', []
    for e in ends:
        distinct.update(e['distinct'])
        rule = e['rule'] or rule
        for a in e['assumptions']:
            if a not in assume:
                assume.append(a)
        for k, x in e['counters'].items():
            counters[k] = counters.get(k, 0) + x
        for k, x in e['seen'].items():
            seen.setdefault(k, set()).update(x)
        for k, x in e['samples'].items():
            samples.setdefault(k, []).extend(x)
    flat = []
    for k, x in samples.items():
        for s in x[:3]:
            flat.append('%s: %s' % (k, s))
    cov = dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=rule, samples=flat[:40],
               observed={k: v for k, v in sorted(counters.items())},
               distinct_observed={k: len(v) for k, v in sorted(seen.items())},
               build_s=round(build_s, 1))
    if inconc:
        cov['inconclusive'] = inconc[:20]
    write_evidence(prop, dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'exploration'), coverage=cov,
                              assumptions=assume, wall_s=round(time.time() - t0, 2), violations=sum(len(x) for x in new.values())))
    for _, (k, vs) in sorted(knownhit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rc = 0
    for i, (key, vs) in enumerate(sorted(new.items(), key=lambda kv: kv[0])):
        v = vs[0]
        rp = os.path.join(replays, '%s-%d.json' % (prop, i))
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, run=v.get('run', 0), suite=v['suite'], idx=v['idx'], key=key,
                           msg=v.get('msg', ''), note=v.get('note', ''), count=len(vs)), f, indent=1)
        if i < 12:
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            print('  key=%s (%d cases) suite=%s idx=%s' % (key, len(vs), v['suite'], v['idx']))
            print('  ' + v.get('msg', '')[:1500].replace('\n', '\n  '))
        rc = 1
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %d known, build %.1fs, wall %.1fs' % (
        prop, tier, seed, evals, len(distinct), sum(len(x) for x in new.values()), sum(len(x[1]) for x in knownhit.values()), build_s, time.time() - t0))
    if rc == 0:
        if errors:
            sys.stderr.write('\n'.join(errors) + '\n')
            return 2
        if evals == 0 or not distinct:
            sys.stderr.write('the workload observed nothing\n')
            return 2
        shutil.rmtree(wdir, ignore_errors=True)
    return rc

def replay(path):
    with open(path) as f:
        r = json.load(f)
    cfg = CHECKS[r['property']]
    runs = cfg.get('runs') or [dict(harness=cfg['harness'], flavor=cfg.get('flavor', 'asan'), extra=cfg.get('extra', ()))]
    c = dict(cfg)
    c.update(runs[r.get('run', 0)])
    exe = vbuild.build(c.get('flavor', 'asan'), c['harness'], c.get('extra', ()))
    s = os.path.join(VERIF, 'work', 'replay-scratch')
    os.makedirs(s, exist_ok=True)
    return subprocess.call([exe, '--seed', str(r['seed']), '--tier', r['tier'], '--scratch', s, '--out', '/dev/stdout', '--replay', r['suite'], str(r['idx'])], env=env())

if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == 'replay':
        sys.exit(replay(a[1]))
    if a and a[0] == 'setup':
        for fl in (a[1:] or ['asan']):
            print(vbuild.build(fl, None))
        sys.exit(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--seed' in a:
        seed = int(a[a.index('--seed') + 1])
    sys.exit(check(a[0], tier, seed))
