"""Runs scenarios on the library and judges the outcomes with TLC (module Trace); runs the model checking modules."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    pass


class Engine(object):
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='blcheck')
        self.classes = os.path.join(self.dir, 'classes')
        os.makedirs(self.classes)
        src = [os.path.join(VERIF, 'java/blreal', f) for f in sorted(os.listdir(os.path.join(VERIF, 'java/blreal')))]
        r = subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', self.classes] + src,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise Machinery('javac: ' + r.stdout)
        self.count = 0
        self.lock = threading.Lock()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def scratch(self):
        with self.lock:
            self.count += 1
            d = os.path.join(self.dir, 'w{}'.format(self.count))
        os.makedirs(d)
        return d

    # ---------------------------------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, args=(), env=None, heap='2g', timeout=800, workers=1):
        d = self.scratch()
        spec = os.path.join(d, 'spec')
        shutil.copytree(SPEC, spec)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
               '-Djava.io.tmpdir=' + d,
               '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:blreal.Overrides',
               '-cp', self.classes + ':' + JARS, 'tlc2.TLC', '-metadir', os.path.join(d, 'meta'),
               '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg] + list(args) + [module]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=spec, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
            out, code = r.stdout, r.returncode
        except subprocess.TimeoutExpired as x:
            out, code = (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or ''), -9
        shutil.rmtree(d, ignore_errors=True)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
        gen, dis = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        return {'code': code, 'out': out, 'generated': gen, 'distinct': dis, 'wall': time.time() - t0}

    # ---------------------------------------------------------------------------------------------- traces
    def drive(self, events, timeout=240):
        """observed outcomes of the events, on the library in /repo"""
        res = []
        while len(res) < len(events):
            rest = events[len(res):]
            got, msg, code = self.drive_once(rest, timeout)
            res += got
            if len(got) == len(rest):
                break
            if not got and code != -9:
                raise Machinery('driver: ' + msg[-2000:])
            # the process ended (or did not end) while executing a call: this trace is over
            k = len(res)
            while k < len(events) and (k == len(res) or events[k]['c'] != 'begin'):
                x = dict(events[k])
                x['out'] = {'err': 'process ended' if code != -9 else 'TimeoutError'}
                res.append(x)
                k += 1
            timeout = min(timeout, 60)
        return res

    def drive_once(self, events, timeout):
        d = self.scratch()
        a, b = os.path.join(d, 'in.ndjson'), os.path.join(d, 'out.ndjson')
        with open(a, 'w') as f:
            for e in events:
                f.write(json.dumps(e) + '\n')
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', TMPDIR=d)
        for k in ('PYTHONPATH', 'PYTHONHOME'):
            env.pop(k, None)
        p = subprocess.Popen([PY, os.path.join(HERE, 'driver.py'), a, b], cwd=d, env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            msg, _ = p.communicate(timeout=timeout)
            code = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            msg, code = 'timeout', -9
        res = []
        if os.path.exists(b):
            for line in open(b):
                try:
                    res.append(json.loads(line))
                except ValueError:
                    break
        shutil.rmtree(d, ignore_errors=True)
        return res, msg, code

    def judge(self, events, timeout=800):
        """verdicts of TLC on recorded events: list of (tag, trace number, index, call, message), stats"""
        d = self.scratch()
        p = os.path.join(d, 'trace.ndjson')
        with open(p, 'w') as f:
            for e in events:
                f.write(json.dumps(e) + '\n')
        r = self.tlc('Trace.tla', 'Trace.cfg', env={'TRACE': p}, timeout=timeout)
        verdicts = []
        for m in re.finditer(r'<<\s*"@(KNOWN|REJECT)",\s*(\d+),\s*(\d+),\s*"(\w+)",(.*?)>>\s*(?=\n<<|\n[A-Z]|\Z)', r['out'], re.S):
            verdicts.append((m.group(1), int(m.group(2)), int(m.group(3)), m.group(4), ' '.join(m.group(5).split())))
        if r['code'] == 0 and 'No error has been found' in r['out']:
            return verdicts, r
        if 'Parsing or semantic analysis failed' in r['out'] or 'Parse Error' in r['out']:
            raise Machinery('TLC: ' + r['out'][-2000:])
        # TLC could not evaluate some event: find the trace
        starts = [i for i, e in enumerate(events) if e['c'] == 'begin'] + [len(events)]
        if len(starts) == 2:
            if r['code'] == -9:
                raise Machinery('TLC: timeout')
            txt = [l for l in r['out'].splitlines() if 'Error' in l or 'exception' in l.lower() or 'not ' in l][:6]
            done = re.findall(r'l = (\d+)', r['out'])
            return verdicts + [('REJECT', events[0]['n'], 0, 'trace', 'outcome cannot be evaluated: ' + ' | '.join(txt)[:600])], r
        mid = starts[len(starts)//2]
        a, ra = self.judge(events[:mid], timeout)
        b, rb = self.judge(events[mid:], timeout)
        for k in ('generated', 'distinct', 'wall'):
            ra[k] += rb[k]
        return a + b, ra

    def check_traces(self, traces, shards=CORES, keep=None):
        """traces: list of Trace; returns dict with verdicts, counts and recorded events"""
        traces = list(traces)
        shards = max(1, min(shards, len(traces)))
        groups = [[] for _ in range(shards)]
        weight = [0]*shards
        for n, t in sorted(enumerate(traces), key=lambda x: -x[1].weight() if hasattr(x[1], 'weight') else -len(x[1].ev)):
            k = weight.index(min(weight))
            groups[k].append((n, t))
            weight[k] += len(t.ev) + 1

        def work(g):
            ev = []
            for n, t in g:
                ev += t.events(n)
            t0 = time.time()
            rec = self.drive(ev)
            t1 = time.time()
            v, r = self.judge(rec)
            return rec, v, r, t1 - t0, time.time() - t1
        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(work, groups))
        rec = [e for x in res for e in x[0]]
        ver = sorted((v for x in res for v in x[1]), key=lambda v: (v[1], v[2]))
        return {'events': rec, 'verdicts': ver, 'traces': len(traces), 'calls': sum(1 for e in rec if e['c'] != 'begin'),
                'states': sum(x[2]['distinct'] for x in res), 'transitions': sum(x[2]['generated'] for x in res),
                'drive_s': max(x[3] for x in res), 'judge_s': max(x[4] for x in res)}
