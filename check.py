#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: builds the world deciding PROPERTY from /repo's working tree, runs the
seeded search, writes evidence/PROPERTY.json.  Exit 0 held, 1 violation, 2 no answer."""
import sys, os, re, json, subprocess, time, hashlib, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from worlds import WORLDS, WORLD_OF, RULES

def lib_sources():
    import re
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    out = []
    for m in re.findall(r'^\s*(src/\S+\.cpp)', txt, re.M):
        if m not in out and os.path.exists(os.path.join(REPO, m)): out.append(m)
    return out

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, 'rb').read()); continue
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def build(world):
    w = WORLDS[world]
    bdir = os.path.join(HERE, 'build')
    os.makedirs(bdir, exist_ok=True)
    key = tree_hash([os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(HERE, 'sim'),
                     os.path.join(HERE, 'worlds'), os.path.join(HERE, 'tools', 'worlds.py')])
    exe = os.path.join(bdir, world)
    stamp = exe + '.stamp'
    lock = open(exe + '.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe
    odir = os.path.join(bdir, world + '.o')
    os.makedirs(odir, exist_ok=True)
    cfg = os.path.join(HERE, 'sim', 'config')
    san = '-fsanitize=' + w.get('san', 'address')
    base = ['g++', '-std=c++14', '-g1', '-w', '-fno-omit-frame-pointer', '-fno-pie', '-I' + cfg, '-I' + os.path.join(REPO, 'include'),
            '-I/usr/include/libxml2', san]
    inst = ['-fsanitize-coverage=trace-pc'] + [x.replace('{here}', HERE) for x in w.get('flags', [])]
    opt = w.get('opt', '-O1')
    jobs = []
    for s in w['sources']:
        bare = s in w.get('bare', [])           # part of the simulator, not instrumented
        jobs.append((os.path.join(HERE, s), [x for x in base if x != san] + ['-O2'] if bare else base + inst + [opt]))
    jobs.append((os.path.join(HERE, 'sim/runtime.cpp'), [x for x in base if x != san] + ['-O2'] + w.get('rtflags', [])))
    jobs.append((os.path.join(HERE, 'sim/mem.cpp'), (base if san == '-fsanitize=address' else [x for x in base if x != san]) + ['-O1']))
    for s in lib_sources():
        jobs.append((os.path.join(REPO, s), base + inst + ['-O1']))
    objs = []
    cmds = []
    for i, (src, cmd) in enumerate(jobs):
        o = os.path.join(odir, '%d_%s.o' % (i, os.path.basename(src)))
        objs.append(o)
        cmds.append(cmd + ['-MD', '-MF', o + '.d', '-c', src, '-o', o])
    # an object is kept while its command line and everything it was made from are the same
    def inputs(c):
        h = hashlib.sha256('\0'.join(c).encode())
        for f in sorted(set(re.sub(r'\\\n', ' ', open(c[-1] + '.d').read()).split(':', 1)[1].split())):
            h.update(f.encode()); h.update(open(f, 'rb').read())
        return h.hexdigest()
    def run(c):
        o = c[-1]
        try:
            if os.path.exists(o) and open(o + '.key').read() == inputs(c):
                return c, subprocess.CompletedProcess(c, 0)
        except OSError:
            pass
        for f in (o, o + '.key'):
            if os.path.exists(f): os.remove(f)
        r = compile_(c)
        if not r[1].returncode and san == '-fsanitize=thread' and san in c:
            subprocess.check_call(['objcopy'] + ['--redefine-sym=%s=sim_%s' % (f, f) for f in ('memcpy', 'memmove', 'memset')] + [o])
        if not r[1].returncode: open(o + '.key', 'w').write(inputs(c))
        return r
    def compile_(c):
        return c, subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with ThreadPoolExecutor(8) as ex:
        for c, r in ex.map(run, cmds):
            if r.returncode:
                print('ERROR compiling', c[-3], file=sys.stderr); print(r.stdout[-6000:], file=sys.stderr)
                sys.exit(2)
    link = ['g++', '-no-pie'] + ([san] if san == '-fsanitize=address' else []) + [ '-Wl,--wrap=XML_ParserCreate'] + w.get('link', []) + objs + ['-o', exe, '-lexpat', '-lxml2', '-lxerces-c', '-lpthread', '-ldl']
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print('ERROR linking', file=sys.stderr); print(r.stdout[-6000:], file=sys.stderr)
        sys.exit(2)
    open(stamp, 'w').write(key)
    return exe

def main():
    t0 = time.time()
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    world = WORLD_OF[prop]
    exe = build(world)
    t1 = time.time()
    if '--build-only' in args:
        return 0
    out = os.path.join(HERE, 'replays'); os.makedirs(out, exist_ok=True)
    ev = os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    stats = os.path.join(HERE, 'build', 'stats-%s-%d.json' % (prop, os.getpid()))
    if '--replay' in args:
        return subprocess.call([exe, '--replay', args[args.index('--replay') + 1]])
    secs = float(os.environ.get('VERIF_TIME', '0')) or (WORLDS[world].get('quick', 30) if tier == 'quick' else 600)
    cmd = [exe, '--prop', prop, '--seed', str(seed), '--time', str(secs), '--jobs', '8', '--out', out, '--stats', stats,
           '--known', os.path.join(HERE, 'known', prop + '.tsv'), '--min-runs', str(RULES[prop].get('min', 400))]
    if tier == 'thorough': cmd.append('--thorough')
    r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
    sys.stdout.write(r.stdout); sys.stdout.flush()
    cov = {}
    if os.path.exists(stats):
        cov = json.load(open(stats)); os.remove(stats)
    cov['rule'] = RULES[prop]['rule']
    cov['components'] = WORLDS[world]['components']
    cov['build_s'] = round(t1 - t0, 1)
    cov.setdefault('samples', [])
    doc = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
           'assumptions': RULES[prop].get('assumptions', []), 'wall_s': round(time.time() - t0, 1),
           'violations': 1 if r.returncode == 1 else 0}
    json.dump(doc, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    return r.returncode

if __name__ == '__main__':
    sys.exit(main())
