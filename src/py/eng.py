"""Exploration engine for Python harnesses: enumerates (family, index) cases over forked workers, detects
crashes and hangs, confirms every violation by replaying its case alone or,
where that does not show it, after the cases the same process had run before it; result format as core.hpp."""
import os, sys, json, mmap, struct, time, signal, tempfile, traceback
class Bad(Exception): pass
class Eng:
    def __init__(s):
        s.fams = []; s.counters = {}; s.samples = []; s.detail = ''
    def family(s, name, items, run): s.fams.append((name, items, run))
    def count(s, k, n=1): s.counters[k] = s.counters.get(k, 0) + n
    def at(s, t): s.detail = t; b = t.encode()[:1500]; s.mm[s.off + 24:s.off + 24 + len(b) + 1] = b + b'\0'
    def violation(s, msg): raise Bad(msg)
    def one(s, f, i):
        try: s.fams[f][2](s.fams[f][1][i]); return None
        except Bad as e: return '%s | at %s' % (e, s.detail)
        except Exception as e: return 'unexpected %s: %s %s | at %s' % (type(e).__name__, e, ''.join(traceback.format_exc()[-700:]), s.detail)
    def worker(s, w, W, start, path, only):
        os.dup2(s.err[w], 2); s.off = 4096 * w; f0, i0 = start; nv = 0
        def dump(): open(path, 'w').write(json.dumps(dict(c=s.counters, s=s.samples, v=s.viol)))
        s.viol = []; t0 = time.time()
        for f in range(f0, len(s.fams)):
            if only and s.fams[f][0] != only: continue
            for i in range(i0 if f == f0 else w, len(s.fams[f][1]), W):
                s.mm[s.off:s.off + 24] = struct.pack('qqd', f, i, time.time()); m = s.one(f, i)
                if m: s.viol.append((f, i, 0, m, w, f0, i0)); nv += 1
                if nv >= 4: break
                if len(s.samples) < 6 and i == w and m is None and s.detail: s.samples.append('%s[%d]: %s' % (s.fams[f][0], i, s.detail[:300]))
            if nv >= 4: break
        s.mm[s.off:s.off + 24] = struct.pack('qqd', -1, 0, 0.0); dump(); os._exit(0)
    def before(s, w, f0, i0, f, i, W, only): # the cases that worker w ran from its start (f0, i0) up to (f, i)
        return [(g, j) for g in range(f0, f + 1) if not only or s.fams[g][0] == only for j in range(i0 if g == f0 else w, i if g == f else len(s.fams[g][1]), W)]
    def run(s, cs):
        for f, i in cs:
            s.mm[0:24] = struct.pack('qqd', f, i, time.time()); m = s.one(f, i)
            if m: return m
    def alone(s, cs, lim):
        s.off = 0; e = tempfile.TemporaryFile(); r, w = os.pipe(); p = os.fork()
        if not p: os.dup2(e.fileno(), 2); m = s.run(cs); os.write(w, (m or '').encode()[:60000]); os._exit(0)
        os.close(w); t0 = time.time(); out = b''; os.set_blocking(r, False)
        while True:
            try: out += os.read(r, 65536) or b''
            except BlockingIOError: pass
            q, st = os.waitpid(p, os.WNOHANG)
            if q: break
            if time.time() - t0 > lim: os.kill(p, 9); os.waitpid(p, 0); return 'no termination within the time limit'
            time.sleep(0.002)
        try: out += os.read(r, 65536) or b''
        except BlockingIOError: pass
        os.close(r)
        if out: return out.decode(errors='replace')
        if st: e.seek(0); d = s.mm[24:1600].split(b'\0')[0].decode(errors='replace'); return 'process died (wait status 0x%x) | at %s | stderr: %s' % (st, d, e.read(1500).decode(errors='replace'))
        return None
    def main(s, args):
        W = min(8, os.cpu_count() or 1); LIM = 60; s.mm = mmap.mmap(-1, 4096 * W); s.off = 0; s.err = [os.open('/dev/null', os.O_WRONLY)] * W
        if args.replay:
            t = open(args.replay[1:]).read() if args.replay[0] == '@' else args.replay; N = [x[0] for x in s.fams]; cs = []
            for c in t.split(';'):
                f, i = c.rsplit(':', 1); a, _, st = i.partition('/'); a, _, b = a.partition('-'); cs += [(N.index(f), j) for j in range(int(a), int(b or int(a) + 1), int(st or 1))]
            m = s.alone(cs, 3 * LIM if len(cs) == 1 else 300); print(m or 'no violation'); sys.exit(1 if m else 0)
        t0 = time.time(); tmp = tempfile.mkdtemp(prefix='verif-py-'); gen = [0] * W; pids = {}; viol = []; infra = 0; paths = []; began = {}
        def spawn(w, start):
            path = '%s/%d.%d' % (tmp, w, gen[w]); gen[w] += 1; paths.append(path); sys.stdout.flush(); p = os.fork()
            if not p:
                try: s.worker(w, W, start, path, args.only)
                finally: os._exit(9)
            pids[p] = w; began[w] = start
        for w in range(W): spawn(w, (0, w))
        killed = set()
        while pids:
            p, st = os.waitpid(-1, os.WNOHANG)
            if p in pids:
                w = pids.pop(p)
                if st:
                    f, i, t = struct.unpack('qqd', s.mm[4096 * w:4096 * w + 24]); d = s.mm[4096 * w + 24:4096 * w + 1600].split(b'\0')[0].decode(errors='replace')
                    if f < 0: infra += 1; continue
                    viol.append((f, i, 2 if p in killed else 1, ('no termination within the time limit' if p in killed else 'process died (wait status 0x%x)' % st) + ' | at ' + d, w) + began[w])
                    if len(viol) < 6 and gen[w] < 20: spawn(w, (f, i + W))
                continue
            for p, w in list(pids.items()):
                f, i, t = struct.unpack('qqd', s.mm[4096 * w:4096 * w + 24])
                if f >= 0 and t and time.time() - t > LIM: killed.add(p); os.kill(p, 9)
            time.sleep(0.005)
        C = {}; S = []
        for path in paths:
            if not os.path.exists(path): continue
            d = json.load(open(path)); os.unlink(path); viol += [tuple(v) for v in d['v']]; S += d['s']
            for k, v in d['c'].items(): C[k] = C.get(k, 0) + v
        os.rmdir(tmp); viol.sort(); out = []; conf = 0
        for f, i, k, m, w, f0, i0 in viol[:12]:
            r = None; tried = conf < 3
            if tried: r = s.alone([(f, i)], 3 * LIM) or s.alone([(f, i)], 3 * LIM); conf += bool(r)
            out.append(dict(family=s.fams[f][0], index=i, kind=k, msg=r or m, confirmed=True if r else False if tried else None))
        left = 200
        for v, (f, i, k, m, w, f0, i0) in zip(out, viol): # no case shows it alone: the last forty cases of its process, then all of them
            h = s.before(w, f0, i0, f, i, W, args.only)
            for n in (40, len(h)):
                if conf or k == 2 or not h or left < 1 or n > len(h): continue
                t1 = time.time(); cs = h[-n:] + [(f, i)]; r = s.alone(cs, left); left -= time.time() - t1
                if not r or r.startswith('no termination'): continue
                conf += 1; v.update(confirmed=True, msg='after the preceding %d cases of the same process (the case alone does not show it): ' % n + r); rg = []
                for g, j in cs:
                    if rg and rg[-1][0] == g and j - rg[-1][2] == W: rg[-1][2] = j
                    else: rg.append([g, j, j])
                v['case'] = ';'.join('%s:%d-%d/%d' % (s.fams[g][0], a, b + 1, W) for g, a, b in rg)
        json.dump(dict(wall_s=time.time() - t0, infra=infra, stopped=0, families={n: len(it) for n, it, _ in s.fams if not args.only or n == args.only}, violations=out, findings=[], counters=C, samples=S[:12]), open(args.out, 'w'))
