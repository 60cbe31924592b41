"""Builds the library (from /repo's working tree) and one harness, with a sanitizer.

The library sources are compiled in unity batches (about 4x faster than one by one);
a batch that does not compile as a unit is compiled file by file instead."""
import os, sys, subprocess, hashlib, json, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NB = 24

SAN = {
    'asan': '-fsanitize=address,undefined -fno-sanitize-recover=all',
    'tsan': '-fsanitize=thread',
    'fuzz': '-fsanitize=address,undefined,fuzzer-no-link -fno-sanitize-recover=all',
    'plain': '',
}
FLAVORS = {
    'asan': dict(san='asan', conf='default', opt='-O0', libs='-lgnutls -licui18n -licuuc -licudata -lgsasl -lpthread -lanl'),
    'tsan': dict(san='tsan', conf='default', opt='-O1', libs='-lgnutls -licui18n -licuuc -licudata -lgsasl -lpthread -lanl'),
    'alt':  dict(san='asan', conf='alt', opt='-O0', libs='-lssl -lcrypto -lgsasl -lpthread -lanl'),
    'asan1': dict(san='asan', conf='default', opt='-O1', libs='-lgnutls -licui18n -licuuc -licudata -lgsasl -lpthread -lanl'),
    'fuzz': dict(san='fuzz', conf='default', opt='-O1', libs='-lgnutls -licui18n -licuuc -licudata -lgsasl -lpthread -lanl -fsanitize=fuzzer'),
}

class BuildError(Exception):
    pass

def sources():
    out = []
    for root in ('src/vmime', 'contrib'):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.cpp'):
                    p = os.path.join(d, f)
                    if '/platforms/windows/' in p or '/platforms/wince/' in p:
                        continue
                    out.append(p)
    return out

def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)

def build(flavor, harness, extra=(), verbose=False):
    """Returns the path of the harness executable."""
    fl = FLAVORS[flavor]
    bdir = os.path.join(BUILD, flavor)
    os.makedirs(bdir, exist_ok=True)
    srcs = sources()
    if not srcs:
        raise BuildError('no sources found in ' + REPO)
    # content hashes: force a rebuild when contents changed behind an old mtime
    hashes = {}
    for d, ds, fs in os.walk(REPO):
        if d == REPO:
            ds[:] = [x for x in ds if x in ('src', 'contrib')]
        for f in fs:
            if f.endswith(('.cpp', '.hpp', '.h', '.c', '.inl')):
                p = os.path.join(d, f)
                with open(p, 'rb') as fh:
                    hashes[p] = hashlib.sha1(fh.read()).hexdigest()
    hfile = os.path.join(bdir, 'hashes.json')
    old = {}
    try:
        with open(hfile) as f:
            old = json.load(f)
    except (OSError, ValueError):
        pass
    changed = [p for p in hashes if old.get(p) != hashes[p]]
    if old and changed:
        try:
            stamp = os.path.getmtime(hfile)
            stale = any(os.path.getmtime(p) <= stamp for p in changed)
        except OSError:
            stale = True
        if stale:
            for o in os.listdir(bdir):
                if o.endswith('.o'):
                    os.remove(os.path.join(bdir, o))
    # batches balanced by size, stable across runs
    batches = [[] for _ in range(NB)]
    tot = [0] * NB
    for p in sorted(srcs, key=lambda p: (-os.path.getsize(p), p)):
        i = tot.index(min(tot))
        batches[i].append(p)
        tot[i] += os.path.getsize(p) + 6000
    split = set()
    sfile = os.path.join(bdir, 'split.json')
    libc = os.path.join(VERIF, 'config', fl['conf'])
    hdir = os.path.join(VERIF, 'harness')
    flags = (f"{fl['opt']} -g1 -std=gnu++17 -fno-omit-frame-pointer -D_REENTRANT=1 -DVMIME_STATIC -w "
             f"{SAN[fl['san']]} -I{libc} -I{REPO}/src -I{REPO}")
    for attempt in range(2):
        rules = [
            'cxx = /usr/bin/clang++',
            'flags = ' + flags,
            'rule cc', '  command = $cxx $flags $xflags -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
            'rule link', '  command = $cxx -fuse-ld=lld $flags -o $out $in $libs',
            '']
        objs = []
        for i, b in enumerate(batches):
            if not b:
                continue
            if i in split:
                for p in b:
                    o = 's_' + hashlib.sha1(p.encode()).hexdigest()[:12] + '.o'
                    rules.append(f'build {o}: cc {p}')
                    objs.append(o)
            else:
                u = os.path.join(bdir, f'u{i}.cpp')
                write_if_changed(u, ''.join(f'#include "{p}"\n' for p in b))
                rules.append(f'build u{i}.o: cc {u}')
                objs.append(f'u{i}.o')
        rules.append('build lib: phony ' + ' '.join(objs))
        targets = []
        if harness:
            hsrc = [os.path.join(hdir, harness + '.cpp')] + [os.path.join(hdir, e) for e in extra]
            if flavor != 'fuzz':
                hsrc.append(os.path.join(hdir, 'vh.cpp'))
            hobjs = []
            for s in hsrc:
                o = 'h_' + os.path.basename(s)[:-4] + '.o'
                rules.append(f'build {o}: cc {s}\n  xflags = -I{hdir}')
                hobjs.append(o)
            for line in open(hsrc[0], errors='replace'):
                if line.startswith('// with:'):   # suites of other harnesses, each under its own setup function
                    for n in line[len('// with:'):].split():
                        rules.append(f'build ha_{n}.o: cc {os.path.join(hdir, n + ".cpp")}\n  xflags = -I{hdir} -Dsetup=setup_{n}')
                        hobjs.append(f'ha_{n}.o')
            ld = ''
            for line in open(hsrc[0], errors='replace'):
                if line.startswith('// ldflags:'):
                    ld += ' ' + line[len('// ldflags:'):].strip()
            rules.append(f"build {harness}.exe: link {' '.join(hobjs)} {' '.join(objs)}\n  libs = {ld} {fl['libs']}")
            targets.append(harness + '.exe')
        else:
            targets.append('lib')
        nfile = os.path.join(bdir, f'build.ninja')
        write_if_changed(nfile, '\n'.join(rules) + '\n')
        r = subprocess.run(['ninja', '-C', bdir, '-f', nfile, '-k', '0'] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if verbose:
            sys.stderr.write(r.stdout[-3000:])
        if r.returncode == 0:
            with open(hfile, 'w') as f:
                json.dump(hashes, f)
            return os.path.join(bdir, harness + '.exe') if harness else bdir
        failed = set()
        for line in r.stdout.splitlines():
            if line.startswith('FAILED: '):
                for w in line.split():
                    if w.startswith('u') and w.endswith('.o') and w[1:-2].isdigit():
                        failed.add(int(w[1:-2]))
        if not failed or attempt == 1:
            raise BuildError(r.stdout[-6000:])
        split |= failed
    raise BuildError('unreachable')

if __name__ == '__main__':
    fl = sys.argv[1] if len(sys.argv) > 1 else 'asan'
    h = sys.argv[2] if len(sys.argv) > 2 else None
    print(build(fl, h, sys.argv[3:], verbose=True))
