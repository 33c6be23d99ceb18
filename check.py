#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only family] [--replay file]

Builds the checked sources of /repo together with the harness of one property, explores the
bounded space exhaustively, writes evidence/<property>.json, and exits 0 (held on everything
explored) or 1 (VIOLATION line).  Any other exit is an error of the check itself."""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
import parts as P

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode: print('command failed:', ' '.join(cmd), '\n', r.stdout[-6000:]); sys.exit(3)
    return r.stdout

def build(part, bdir):
    """compile /repo/src/*.c (and extra repo files) with the part's flags, then the harness against it"""
    d = os.path.join(bdir, part['name']); os.makedirs(d); ctx = dict(repo=REPO, verif=HERE, d=d)
    cc = part.get('cc', 'gcc'); cflags = part.get('cflags', '-O2 -g -DNDEBUG').replace('{verif}', HERE).split(); objs, jobs = [], []
    if 'VERIF_CFLAGS' in os.environ and 'sanitize' not in part.get('cflags', ''): cc = os.environ.get('VERIF_CC', cc); cflags = os.environ['VERIF_CFLAGS'].split()  # development: other compilers and optimisation levels
    inc = ['-I' + REPO + '/include']
    srcs = [(s, cflags) for s in sorted(glob.glob(REPO + '/src/*.c'))] if part.get('lib', True) else []
    srcs += [(x[0].format(**ctx), x[1].format(**ctx).split()) for x in part.get('extra', [])]
    for i, (s, fl) in enumerate(srcs):
        o = os.path.join(d, '%02d_%s.o' % (i, os.path.basename(s).rsplit('.', 1)[0])); objs.append(o)
        c = ('g++' if s.endswith('.cpp') else cc)
        jobs.append([c] + fl + inc + ['-w', '-c', s, '-o', o])
    hs = part.get('src')
    if hs:
        o = os.path.join(d, 'harness.o'); cxx = part.get('cxx', 'g++')
        jobs.append([cxx] + part.get('cxxflags', '-O2 -std=c++17').replace('{verif}', HERE).split() + ['-w', '-I' + HERE + '/src'] + inc + ['-c', os.path.join(HERE, 'src', hs), '-o', o])
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))
    if part.get('isolate'): # the library's static data go to sections of their own
        one = os.path.join(d, 'lib.o'); sh(['ld', '-r', '-o', one] + objs); secs = set(re.findall(r'\] (\.(?:data|bss|ldata|lbss)\S*)', sh(['readelf', '-SW', one])))
        ren = [x for k in sorted(secs) if not k.startswith('.data.rel.ro') for x in ('--rename-section', k + ('=libbss,alloc,load,data,contents' if 'bss' in k else '=libdata'))]
        sh(['objcopy'] + ren + [one]); objs = [one]
    if hs:
        out = os.path.join(d, 'harness'); sh([part.get('cxx', 'g++')] + part.get('ldflags', '').format(**ctx).split() + [os.path.join(d, 'harness.o')] + objs + ['-o', out, '-lm', '-lpthread', '-ldl'] + part.get('libs', '').split())
    for c in part.get('post', []): sh(['bash', '-c', c.format(objs=' '.join(objs), **ctx)])
    return d

def cmdline(part, d): return part['cmd'].format(d=d, verif=HERE, repo=REPO).split() if 'cmd' in part else [os.path.join(d, 'harness')] + part.get('args', '').split()

def known(prop):
    K = {}
    for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
        if l.startswith('known: property=%s key=' % prop): k = l.split('key=', 1)[1].split(None, 1); K[k[0]] = k[1].strip()
    return K

def main():
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; replay = None
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 1
        elif a[i] == '--only': only = a[i + 1]; i += 1
        elif a[i] == '--replay': replay = a[i + 1]; i += 1
        i += 1
    if tier not in ('quick', 'thorough'): tier = 'quick'
    C = P.CHECKS[prop]; seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    bdir = os.path.join(HERE, 'build', '%s-%d' % (prop, os.getpid())); shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir); os.makedirs(HERE + '/evidence', exist_ok=True)
    env0 = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), PYTHONDONTWRITEBYTECODE='1')
    try:
        parts = [p for p in C['parts'] if tier == 'thorough' or not p.get('thorough_only')]
        if replay:
            R = json.load(open(replay)); p = [x for x in parts + C['parts'] if x['name'] == R['part']][0]; env0['VERIF_TIER'] = R.get('tier', tier); d = build(p, bdir); case = R['case']
            if len(case) > 50000: open(d + '/case.txt', 'w').write(case); case = '@' + d + '/case.txt'
            r = subprocess.run(cmdline(p, d) + ['--tier', R.get('tier', tier), '--replay', case], env=dict(env0, **{k: v.format(d=d, verif=HERE) for k, v in p.get('env', {}).items()})); print('still violated' if r.returncode == 1 else 'not violated'); return r.returncode
        tot = {}; fams = {}; samples = []; viol = []; notes = []; finds = []; infra = 0
        for p in parts:
            tp = time.time()
            try: d = build(p, bdir)
            except (Exception, SystemExit) as e:
                if not p.get('optional'): raise
                fams[p['name'] + '/not-built'] = 0; print('%s/%s: the library does not build against this model (%s): not explored' % (prop, p['name'], str(e)[-300:].replace('\n', ' | '))); continue
            out = os.path.join(d, 'out.json'); tb = time.time()
            cmd = cmdline(p, d) + ['--tier', tier, '--out', out] + (['--only', only] if only else [])
            env = dict(env0, **{k: v.format(d=d, verif=HERE) for k, v in p.get('env', {}).items()})
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if not os.path.exists(out): print('harness gave no result (exit %d)\n%s' % (r.returncode, r.stdout[-3000:])); return 3
            J = json.load(open(out)); infra += J.get('infra', 0)
            for k, v in J['counters'].items():
                if k.startswith('max_'): tot[k] = max(tot.get(k, 0), v)
                else: tot[k] = tot.get(k, 0) + v
            for k, v in J['families'].items(): fams[p['name'] + '/' + k] = v
            samples += [s for s in J['samples']][:6]
            for v in J['violations']: v['part'] = p['name']; (viol if v.get('confirmed') else [] if v.get('confirmed', 0) is None else notes).append(v)
            finds += J.get('findings', [])
            print('%s/%s: built in %.1f s, explored in %.1f s: %s' % (prop, p['name'], tb - tp, time.time() - tb, json.dumps(J['counters'])), flush=True)
        K = known(prop)
        for f in finds:
            if f['key'] in K: print('KNOWN-FINDING: property=%s key=%s %s' % (prop, f['key'], f['msg']))
            else: viol.append(dict(part=parts[0]['name'], family='catalogued', index=0, kind=0, msg=f['msg'], confirmed=True))
        for v in notes: print('note: not reproduced when replayed alone, not reported: %s:%s %s' % (v['family'], v['index'], v['msg'][:300]))
        if notes and not viol and infra + len(notes) > 5: print('too many unreproducible cases'); return 3
        cov = dict(C['coverage'](tot)); cov['rule'] = C['rule']; cov['samples'] = samples[:24]; cov['families'] = fams; cov['exhaustive'] = not viol and not notes and not infra; cov['counters'] = tot
        ev = dict(property=prop, tier=tier, seed=seed, level=C['level'], coverage=cov, assumptions=C.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        if not viol and not cov.get('evaluations', cov.get('transitions', 0)): print('nothing explored'); return 3
        for n, v in enumerate(viol[:3]):
            rp = os.path.join(HERE, 'evidence', '%s.replay%s.json' % (prop, '' if n == 0 else '.%d' % n))
            json.dump(dict(property=prop, part=v['part'], tier=tier, case=v.get('case') or '%s:%s' % (v['family'], v['index']), what=v['msg'], rerun='python3 /verif/check.py %s --replay %s' % (prop, rp)), open(rp, 'w'), indent=1)
            print(v['msg'][:1500]); print('VIOLATION property=%s replay=%s' % (prop, rp), flush=True)
        if viol: return 1
        print('%s held on everything explored (%s, %.1f s)' % (prop, tier, time.time() - t0)); return 0
    finally: shutil.rmtree(bdir, ignore_errors=True)
sys.exit(main())
