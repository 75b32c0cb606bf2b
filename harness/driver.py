#!/usr/bin/env python
"""Replays recorded/generated calls on the real library and records their outcomes.

usage: driver.py IN.ndjson OUT.ndjson   (run with the library's Python, library taken from /repo)

IN has one event per line (see /verif/spec/Study.tla for their meaning); OUT has the same events with the observed
outcome in the field "out".  Only the public interface of the library is used.  Numbers are written as decimal strings.
"""
import sys, os, io, signal, json, contextlib, copy, shutil, tempfile, types, math
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import scipy.stats
import sympy, sympy.stats
import bayesloop as bl
assert os.path.dirname(os.path.dirname(os.path.abspath(bl.__file__))) == os.path.abspath(REPO), bl.__file__


LIMIT = int(os.environ.get('VERIF_CALL_LIMIT', '30'))   # seconds per call


def too_long(*a):
    raise TimeoutError('call takes too long')


signal.signal(signal.SIGALRM, too_long)


# ---------------------------------------------------------------------------------------------------- numbers
def num(s):
    """numeral -> float (or int if written as an integer)"""
    if isinstance(s, (int, float)):
        return s
    if '/' in s:
        a, b = s.split('/')
        return float(a)/float(b)
    try:
        return int(s)
    except ValueError:
        return float(s)


def fl(s):
    return float(num(s))


def enc(x):
    """observed value -> JSON"""
    if x is None:
        return 'None'
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, str):
        return x
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if isinstance(x, (list, tuple)):
        return [enc(y) for y in x]
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return enc(x[()])
        return [enc(y) for y in x.tolist()] if x.dtype.kind in 'fiub' and x.ndim == 1 else [enc(y) for y in x]
    return str(type(x).__name__)


def flat(post):
    """list of distributions on the grid -> list of flat lists"""
    return [enc(np.ravel(np.asarray(p))) for p in post]


# ---------------------------------------------------------------------------------------------------- models
def as_kind(values, kind):
    if kind == 'list':
        return list(values)
    if kind == 'tuple':
        return tuple(values)
    return np.array(values)


def prior_function(pr):
    c = [fl(x) for x in pr['c']]
    if pr['f'] == 'const':
        return lambda *p: c[0]
    if pr['f'] == 'expo':
        def expo(*p):
            return c[0]*np.exp(sum(ci*pi for ci, pi in zip(c[1:], p)))
        return expo
    if pr['f'] == 'absp':
        def absp(*p):
            return c[0] + sum(ci*np.abs(pi) for ci, pi in zip(c[1:], p))
        return absp
    raise RuntimeError('unknown function')


def same(a, b):
    """nested lists/arrays have not changed"""
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray) and a.dtype.kind in 'fiub':
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, (list, tuple, np.ndarray)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return bool(a == b) or (a != a and b != b)


_rv = [0]


def random_variable(rv):
    _rv[0] += 1
    a = [sympy.Float(x) if '.' in str(x) or 'e' in str(x) else sympy.Integer(int(num(x))) for x in rv['a']]
    return getattr(sympy.stats, rv['d'])('rv{}'.format(_rv[0]), *a)


class Driver(object):
    def __init__(self, scratch):
        self.scratch = scratch
        self.begin()

    def begin(self):
        self.tms, self.studies, self.oms = {}, {}, {}
        self.watch = []   # (label, object, snapshot)
        self.parsers = {}
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)

    def keep(self, label, x):
        """remember an object supplied by the user, or returned to the user"""
        if isinstance(x, (np.ndarray, list, tuple)):
            self.watch.append((label, x, copy.deepcopy(x)))
        return x

    # ---- construction of models
    def prior_arg(self, pr, label, hyper=False):
        k = pr['kind']
        if k == 'none':
            return None
        if k == 'array':
            v = [fl(x) for x in pr['v']]
            if hyper:
                return self.keep(label, as_kind([num(x) for x in pr['v']] if pr.get('int') else v, pr.get('as', 'array')))
            return self.keep(label, np.array(v).reshape(pr['shape']))
        if k == 'func':
            return prior_function(pr)
        if k == 'sympy':
            rvs = [random_variable(r) for r in pr['rv']]
            return rvs[0] if len(rvs) == 1 else rvs
        raise RuntimeError('unknown prior')

    def make_om(self, om):
        kw = {}
        if om['prior']['kind'] != 'default':
            kw['prior'] = self.prior_arg(om['prior'], 'prior')
        if 'bare' in om:   # parameter values are estimated from the data
            vals = [None]*len(om['names'])
        else:
            vals = [self.keep('grid ' + n, as_kind([num(x) if om.get('int') else fl(x) for x in g], om.get('as', 'array')))
                    for n, g in zip(om['names'], om['grids'])]
        args = []
        for n, v in zip(om['names'], vals):
            args += [n, v]
        t = om['type']
        if t in ('scipy', 'sympy'):
            fixed = {n: fl(v) if om['dist'] != 'binom' else num(v) for n, v in zip(om['fixed']['names'], om['fixed']['values'])}
            if t == 'scipy':
                if fixed:
                    kw['fixedParameters'] = fixed
                return bl.om.SciPy(getattr(scipy.stats, om['dist']), *args, **kw)
            sym = {}
            for n, p in zip(om['names'], om['pname']):
                sym[p] = sympy.Symbol(n, **({'positive': True} if p in ('scale', 'mu') else {}))
            for p, v in fixed.items():
                sym[p] = v
            if om['dist'] == 'norm':
                rv = sympy.stats.Normal('d', sym.get('loc', 0), sym.get('scale', 1))
            elif om['dist'] == 'laplace':
                rv = sympy.stats.Laplace('d', sym.get('loc', 0), sym.get('scale', 1))
            elif om['dist'] == 'poisson':
                rv = sympy.stats.Poisson('d', sym['mu'])
            else:
                raise RuntimeError('unknown distribution')
            return bl.om.SymPy(rv, *args, **kw)
        if t == 'numpy':
            f = om['f']
            if f == 'norm':
                def function(data, a, b):
                    return np.exp(-(data-a)**2/(2*b**2))/np.sqrt(2*np.pi*b**2)
            elif f == 'cauchy':
                def function(data, a, b):
                    return b/(np.pi*(b**2+(data-a)**2))
            elif f == 'three':
                def function(data, a, b, c):
                    return np.exp(-(data-a-c)**2/(2*b**2))/np.sqrt(2*np.pi*b**2)
            elif f == 'table':
                def function(data, a):
                    return np.where(data < a, 0., np.exp(-(data-a)**2))
            elif f == 'pair':
                def function(data, a):
                    return np.exp(-(data[0]-a)**2/(2*data[1]**2))/np.sqrt(2*np.pi*data[1]**2)
            return bl.om.NumPy(function, *args, **kw)
        cls = {'gaussian': bl.om.Gaussian, 'laplace': bl.om.Laplace, 'whitenoise': bl.om.WhiteNoise,
               'poisson': bl.om.Poisson, 'bernoulli': bl.om.Bernoulli, 'ar1': bl.om.AR1,
               'scaledar1': bl.om.ScaledAR1, 'gaussianmean': bl.om.GaussianMean}[t]
        return cls(*args, **kw)

    def hp_value(self, h):
        if h['all']:
            return 'all'
        v = [num(x) if (h.get('int') and float(num(x)).is_integer()) else fl(x) for x in h['v']]
        if h['scalar']:
            return v[0]
        return self.keep('values of ' + h['name'], as_kind(v, h.get('as', 'array')))

    def make_tm(self, tm):
        t = tm['type']
        hp = tm['hp']
        val = [self.hp_value(h) for h in hp]
        pri = [self.prior_arg(h['prior'], 'hyper-prior of ' + h['name'], hyper=True) for h in hp]
        kw = {}
        if tm['target']:
            kw['target'] = tm['target']
        noprior = all(p is None for p in pri)
        if t == 'static':
            return bl.tm.Static()
        if t == 'independent':
            return bl.tm.Independent()
        if t in ('changepoint', 'grw', 'regime', 'notequal', 'breakpoint'):
            cls = {'changepoint': bl.tm.ChangePoint, 'grw': bl.tm.GaussianRandomWalk, 'regime': bl.tm.RegimeSwitch,
                   'notequal': bl.tm.NotEqual, 'breakpoint': bl.tm.BreakPoint}[t]
            if not noprior:
                kw['prior'] = pri[0]
            return cls(hp[0]['name'], val[0], **kw)
        if t == 'stable':
            if not noprior:
                kw['prior'] = tuple(pri)
            return bl.tm.AlphaStableRandomWalk(hp[0]['name'], val[0], hp[1]['name'], val[1], **kw)
        if t == 'bivariate':
            if not noprior:
                kw['prior'] = tuple(pri)
            return bl.tm.BivariateRandomWalk(hp[0]['name'], val[0], hp[1]['name'], val[1], hp[2]['name'], val[2], **kw)
        if t == 'det':
            names = [h['name'] for h in hp]
            ns = {}
            body = {'linear': '{0}*t', 'quadratic': '{0}*t**2 + {1}*t', 'step': '(0. if t < {1} else {0})',
                    'badsignature': '{0}*t', 'wrongpriors': '{0}*t'}[tm['f']].format(*names)
            sig = ', '.join(['t'] + ['{}=_d[{}]'.format(n, i) for i, n in enumerate(names)])
            if tm['f'] == 'badsignature':
                sig = 't, ' + names[0] + (', ' + ', '.join('{}=_d[{}]'.format(n, i + 1) for i, n in enumerate(names[1:]))
                                          if len(names) > 1 else ', other=1')
            exec('def function({}):\n    return {}\n'.format(sig, body), {'_d': val}, ns)
            if tm['f'] == 'wrongpriors':
                kw['prior'] = [None]*(len(names) + 1)
            elif not noprior:
                kw['prior'] = pri
            return bl.tm.Deterministic(ns['function'], **kw)
        subs = [self.make_tm(s) for s in tm['subs']]
        if t == 'combined':
            return bl.tm.CombinedTransitionModel(*subs)
        if t == 'serial':
            points = []
            for h, v, p in zip(hp, val, pri):
                cls = bl.tm.ChangePoint if h.get('kind') == 'cp' else bl.tm.BreakPoint
                points.append(cls(h['name'], v, **({} if p is None else {'prior': p})))
            if tm.get('grouped'):   # models first, then the points
                args = subs + points
            else:
                args = []
                for i in range(max(len(subs), len(points))):
                    args += subs[i:i+1] + points[i:i+1]
            return bl.tm.SerialTransitionModel(*args)
        raise RuntimeError('unknown transition model')

    # ---- results
    def fit_out(self, S, kind):
        out = {'err': '', 'logE': enc(S.logEvidence), 'log10E': enc(S.log10Evidence),
               'local': enc(np.ravel(np.array(S.localEvidence, dtype=float))),
               'post': flat(S.posteriorSequence),
               'means': [enc(m) for m in S.posteriorMeanValues]}
        return out

    def ret(self, label, *arrays):
        for a in arrays:
            self.keep('returned by ' + label, a)
        return arrays

    def time(self, t):
        return t if t == 'avg' else num(t)

    # ---- one call
    def run(self, e):
        signal.alarm(LIMIT)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                out = getattr(self, 'do_' + e['c'])(e)
        except BaseException as ex:
            return {'err': type(ex).__name__, 'msg': str(ex)[:200]}
        finally:
            signal.alarm(0)
            plt.close('all')
        return out if isinstance(out, dict) else {'err': ''}

    def do_begin(self, e):
        self.begin()

    def do_newTM(self, e):
        self.tms[e['id']] = self.make_tm(e['tm'])

    def do_newStudy(self, e):
        k = e['kind']
        if k == 'online':
            S = bl.OnlineStudy(storeHistory=e['store'])
        else:
            S = {'study': bl.Study, 'hyper': bl.HyperStudy, 'cp': bl.ChangepointStudy}[k]()
        S_kind = k
        self.studies[e['s']] = (S, S_kind)

    def array(self, data, dim, integer=False):
        conv = (lambda x: num(x)) if integer else fl
        if dim == 0:
            return np.array([conv(x) for x in data])
        return np.array([[conv(y) for y in x] for x in data]).reshape(len(data), dim)

    def do_load(self, e):
        S, _ = self.studies[e['s']]
        a = self.array(e['data'], e['dim'], e.get('int', False))
        if e.get('as') == 'list':
            a = a.tolist()
        self.keep('data', a)
        f = S.load if e.get('alias') else S.loadData
        if e['hasts']:
            ts = self.keep('timestamps', as_kind([num(x) for x in e['ts']], e.get('tsas', 'array')))
            f(a, timestamps=ts)
        else:
            f(a)

    def do_badload(self, e):
        S, _ = self.studies[e['s']]
        S.loadData({'string': 'data', 'number': 3.4, 'dict': {}, 'tuple': (1., 2.), 'none': None}[e['what']])

    def om_for(self, e):
        if e.get('omid'):      # one observation model object, used several times
            if e['omid'] not in self.oms:
                self.oms[e['omid']] = self.make_om(e['om'])
            return self.oms[e['omid']]
        return self.make_om(e['om'])

    def do_setOM(self, e):
        S, _ = self.studies[e['s']]
        om = self.om_for(e)
        {'set': S.set, 'long': S.setObservationModel, 'short': S.setOM}[e.get('via', 'set')](om)

    def do_badOM(self, e):
        w = e['what']
        if w == 'numpy-name':
            bl.om.NumPy(lambda x, a: a, 'a', [1., 2.])
        elif w == 'numpy-count':
            def function(data, a, b):
                return a
            bl.om.NumPy(function, 'a', [1., 2.])
        elif w == 'numpy-nofunction':
            bl.om.NumPy(3, 'a', [1., 2.])
        elif w == 'scipy-name':
            bl.om.SciPy(scipy.stats.norm, 'mu', [1., 2.])
        elif w == 'scipy-nodist':
            bl.om.SciPy('norm', 'loc', [1., 2.])
        elif w == 'sympy-name':
            bl.om.SymPy(sympy.stats.Normal('d', sympy.Symbol('a'), 1), 'b', [1., 2.])
        elif w == 'sympy-nodist':
            bl.om.SymPy(3, 'b', [1., 2.])

    def do_setTM(self, e):
        S, _ = self.studies[e['s']]
        {'set': S.set, 'long': S.setTransitionModel, 'short': S.setTM}[e.get('via', 'set')](self.tms[e['id']])

    def do_setBoth(self, e):
        S, _ = self.studies[e['s']]
        args = [self.om_for(e), self.tms[e['id']]]
        S.set(*(args if not e.get('swap') else args[::-1]))

    def do_badset(self, e):
        S, _ = self.studies[e['s']]
        S.set({'string': 'x', 'number': 1, 'none': None}[e['what']])

    def do_fit(self, e):
        S, kind = self.studies[e['s']]
        kw = {}
        if e['mode'] == 'forward':
            kw['forwardOnly'] = True
        if e['mode'] == 'evidence':
            kw['evidenceOnly'] = True
        if e.get('both'):
            kw['forwardOnly'] = True
        if 'silent' in e:
            kw['silent'] = e['silent']
        with self.pool(e):
            if e.get('jobs', 1) > 1:
                kw['nJobs'] = e['jobs']
            S.fit(**kw)
        return self.fit_out(S, kind)

    def do_interrupt(self, e):
        """fit that is interrupted (as by the user pressing Ctrl-C) when the n-th likelihood is computed"""
        S, kind = self.studies[e['s']]
        om = S.observationModel
        count = [0]
        original = om.pdf

        def pdf(grid, segment):
            count[0] += 1
            if count[0] > e['after']:
                raise KeyboardInterrupt
            return original(grid, segment)
        om.pdf = pdf
        try:
            S.fit(**({'forwardOnly': True} if e['mode'] == 'forward' else
                     {'evidenceOnly': True} if e['mode'] == 'evidence' else {}))
        except KeyboardInterrupt:
            return {'err': 'KeyboardInterrupt'}
        finally:
            del om.pdf
        return {'err': '', 'calls': count[0]}

    @contextlib.contextmanager
    def pool(self, e):
        """stand-in for the pool of worker processes: isolated copies, prescribed order of execution"""
        if e.get('pool', 'real') == 'real':
            yield
            return
        import cloudpickle
        order = e['order']

        class ProcessPool(object):
            def __init__(self, *args, **kwargs):
                self.n = kwargs.get('nodes', kwargs.get('ncpus', args[0] if args else 1))

            def _all(self, f, *args):
                jobs = list(zip(*args))
                res = {}
                seq = [i for i in order if i < len(jobs)] + [i for i in range(len(jobs)) if i not in order]
                blob = cloudpickle.dumps(f)
                done = []
                for i in seq:
                    res[i] = cloudpickle.loads(cloudpickle.dumps(cloudpickle.loads(blob)(*jobs[i])))
                    done.append(i)
                return res, done, len(jobs)

            def map(self, f, *args, **kwargs):
                res, done, n = self._all(f, *args)
                return [res[i] for i in range(n)]

            def imap(self, f, *args, **kwargs):
                return iter(self.map(f, *args))

            def uimap(self, f, *args, **kwargs):
                res, done, n = self._all(f, *args)
                return iter([res[i] for i in done])

            def amap(self, f, *args, **kwargs):
                r = self.map(f, *args)
                return types.SimpleNamespace(get=lambda *a: r, ready=lambda: True, wait=lambda *a: None)

            def pipe(self, f, *args, **kwargs):
                return self.map(f, *[[a] for a in args])[0]

            def apipe(self, f, *args, **kwargs):
                r = self.pipe(f, *args)
                return types.SimpleNamespace(get=lambda *a: r, ready=lambda: True, wait=lambda *a: None)

            def close(self): pass
            def join(self): pass
            def terminate(self): pass
            def restart(self, *a): pass
            def clear(self): pass
            def __enter__(self): return self
            def __exit__(self, *a): pass

        import pathos.multiprocessing as pm
        names = [n for n in ('ProcessPool', 'ProcessingPool', 'Pool') if hasattr(pm, n)]
        saved = {n: getattr(pm, n) for n in names}
        try:
            for n in names:
                setattr(pm, n, ProcessPool)
            yield
        finally:
            for n in names:
                setattr(pm, n, saved[n])

    def do_optimize(self, e):
        S, kind = self.studies[e['s']]
        names = e['names']
        kw = {'forwardOnly': True} if e['mode'] == 'forward' else {}
        if e.get('opts'):
            kw['options'] = e['opts']
        if e.get('single') and len(names) == 1:
            S.optimize(names[0], **kw)
        elif names:
            S.optimize(names, **kw)
        else:
            S.optimize(**kw)
        out = self.fit_out(S, kind)
        out['values'] = [enc(float(S.getHyperParameterValue(n))) for n in e['all']]
        out['better'] = True
        return out

    def do_results(self, e):
        S, kind = self.studies[e['s']]
        return self.fit_out(S, kind)

    def pair(self, e, x, p):
        self.ret(e['c'], x, p)
        return {'err': '', 'x': enc(np.asarray(x)), 'p': enc(np.asarray(p))}

    def do_pd(self, e):
        S, _ = self.studies[e['s']]
        f = S.getPD if e.get('alias') else S.getParameterDistribution
        return self.pair(e, *f(self.time(e['t']), e['name'], density=e['density'], plot=e.get('plot', False)))

    def do_pds(self, e):
        S, _ = self.studies[e['s']]
        f = S.getPDs if e.get('alias') else S.getParameterDistributions
        return self.pair(e, *f(e['name'], density=e['density'], plot=e.get('plot', False)))

    def do_means(self, e):
        S, _ = self.studies[e['s']]
        m = S.getParameterMeanValues(e['name'])
        self.ret(e['c'], m)
        return {'err': '', 'm': enc(np.asarray(m))}

    def do_meanat(self, e):
        S, _ = self.studies[e['s']]
        return {'err': '', 'm': enc(S.getParameterMeanValue(num(e['t']), e['name']))}

    def do_simulate(self, e):
        S, _ = self.studies[e['s']]
        x = self.keep('simulated values', np.array([fl(v) for v in e['x']]))
        kw = {} if e['t'] == 'none' else {'t': num(e['t'])}
        p = S.simulate(x, density=e['density'], **kw)
        self.ret(e['c'], p)
        return {'err': '', 'p': enc(p)}

    def hpair(self, e, x, p):
        self.ret(e['c'], x, p)
        return {'err': '', 'x': enc(np.atleast_1d(x)), 'p': enc(np.atleast_1d(p))}

    def do_hpd(self, e):
        S, _ = self.studies[e['s']]
        f = S.getHPD if e.get('alias') else S.getHyperParameterDistribution
        return self.hpair(e, *f(e['name'], plot=e.get('plot', False)))

    def do_jhpd(self, e):
        S, _ = self.studies[e['s']]
        f = S.getJHPD if e.get('alias') else S.getJointHyperParameterDistribution
        x, y, p = f([e['n1'], e['n2']], plot=e.get('plot', False))
        self.ret(e['c'], x, y, p)
        return {'err': '', 'x': enc(np.atleast_1d(x)), 'y': enc(np.atleast_1d(y)), 'p': enc(np.asarray(p))}

    def do_dd(self, e):
        S, _ = self.studies[e['s']]
        f = S.getDD if e.get('alias') else S.getDurationDistribution
        d, p = f([e['n1'], e['n2']], plot=e.get('plot', False))
        self.ret(e['c'], d, p)
        return {'err': '', 'd': enc(np.asarray(d)), 'p': enc(np.asarray(p))}

    def do_hpvalue(self, e):
        S, _ = self.studies[e['s']]
        v = S.getHyperParameterValue(e['name'])
        return {'err': '', 'v': enc(np.atleast_1d(v)) if not isinstance(v, str) else [v]}

    def do_plot(self, e):
        S, kind = self.studies[e['s']]
        w = e['what']
        if w == 'evolution':
            S.plotParameterEvolution(e['name'])
        elif w == 'plot':
            S.plot(e['name'])
        elif w == 'plotat':
            S.plot(e['name'], t=num(e['t']))
        elif w == 'hyperevolution':
            S.plotHyperParameterEvolution(e['name'])
        else:
            raise RuntimeError('unknown plot')

    def do_inputs(self, e):
        return {'err': '', 'changed': [label for label, x, snap in self.watch if not same(x, snap)]}

    # ---- online studies
    def do_addTM(self, e):
        S, _ = self.studies[e['s']]
        f = {'long': S.addTransitionModel, 'short': S.addTM, 'add': S.add}[e.get('via', 'long')]
        f(e['name'], self.tms[e['id']])

    def do_tmprior(self, e):
        S, _ = self.studies[e['s']]
        v = [num(x) for x in e['v']]
        S.setTransitionModelPrior(self.keep('model prior', as_kind(v, e.get('as', 'list'))))

    def do_step(self, e):
        S, kind = self.studies[e['s']]
        if e['dim'] == 0:
            x = num(e['x']) if e.get('int') else fl(e['x'])
            if e.get('aslist'):
                x = [x]
        else:
            x = self.keep('data point', np.array([fl(v) for v in e['x']]))
        S.step(x)
        out = {'err': ''}
        if getattr(S, 'formattedTimestamps', None) is not None and len(S.formattedTimestamps) > 0:
            out['logE'] = enc(S.logEvidence)
            if len(S.posteriorSequence) > 0:   # stored history
                out['post'] = enc(np.ravel(S.posteriorSequence[-1]))
        return out

    def do_cpd(self, e):
        S, _ = self.studies[e['s']]
        f = S.getCPD if e.get('alias') else S.getCurrentParameterDistribution
        return self.pair(e, *f(e['name'], density=e['density'], plot=e.get('plot', False)))

    def do_cpm(self, e):
        S, _ = self.studies[e['s']]
        return {'err': '', 'm': enc(S.getCurrentParameterMeanValue(e['name']))}

    def do_ctmd(self, e):
        S, _ = self.studies[e['s']]
        f = S.getCTMD if e.get('alias') else S.getCurrentTransitionModelDistribution
        names, p = f(local=e['local'])
        self.ret(e['c'], names, p)
        return {'err': '', 'names': [str(n) for n in names], 'p': enc(np.asarray(p))}

    def do_ctmp(self, e):
        S, _ = self.studies[e['s']]
        f = S.getCTMP if e.get('alias') else S.getCurrentTransitionModelProbability
        return {'err': '', 'p': enc(f(e['name'], local=e['local']))}

    def do_tmds(self, e):
        S, _ = self.studies[e['s']]
        names, p = S.getTransitionModelDistributions(local=e['local'])
        self.ret(e['c'], names, p)
        return {'err': '', 'names': [str(n) for n in names], 'p': enc(np.asarray(p))}

    def do_tmps(self, e):
        S, _ = self.studies[e['s']]
        f = S.getTMPs if e.get('alias') else S.getTransitionModelProbabilities
        p = f(e['name'], local=e['local'])
        self.ret(e['c'], p)
        return {'err': '', 'p': enc(np.asarray(p))}

    def do_chpd(self, e):
        S, _ = self.studies[e['s']]
        f = S.getCHPD if e.get('alias') else S.getCurrentHyperParameterDistribution
        return self.hpair(e, *f(e['name'], plot=e.get('plot', False)))

    def do_hpdt(self, e):
        S, _ = self.studies[e['s']]
        f = S.getHPD if e.get('alias') else S.getHyperParameterDistribution
        return self.hpair(e, *f(self.time(e['t']), e['name'], plot=e.get('plot', False)))

    def do_hpds(self, e):
        S, _ = self.studies[e['s']]
        f = S.getHPDs if e.get('alias') else S.getHyperParameterDistributions
        return self.hpair(e, *f(e['name']))

    def do_hpmean(self, e):
        S, _ = self.studies[e['s']]
        return {'err': '', 'm': enc(S.getHyperParameterMeanValue(num(e['t']), e['name']))}

    def do_hpmeans(self, e):
        S, _ = self.studies[e['s']]
        m = S.getHyperParameterMeanValues(e['name'])
        self.ret(e['c'], m)
        return {'err': '', 'm': enc(np.asarray(m))}

    # ---- queries
    def do_eval(self, e):
        objs = [self.studies[s][0] for s in e['studies']]
        kw = {} if e['t'] == 'none' else {'t': num(e['t'])}
        if e.get('via') == 'eval' and len(objs) == 1:
            r = objs[0].eval(e['q'], **kw)
        else:
            key = (e.get('parser'), tuple(e['studies']))
            P = self.parsers.get(key) if e.get('parser') else None
            if P is None:
                P = bl.Parser(*objs)
                self.parsers[key] = P
            r = P(e['q'], **kw)
        if isinstance(r, tuple):
            v, p = r
            return {'err': '', 'v': enc(np.asarray(v, dtype=float)), 'p': enc(np.asarray(p, dtype=float)), 'represents': True}
        return {'err': '', 'p': enc(float(r))}

    # ---- files
    def do_save(self, e):
        S, _ = self.studies[e['s']]
        (bl.save if e.get('via') != 'module' else bl.fileIO.save)(os.path.join(self.scratch, e['path']), S)

    def do_badsave(self, e):
        """a study that cannot be serialised is saved to an existing file"""
        S, _ = self.studies[e['s']]
        import threading
        S.unserialisable = threading.Lock()
        try:
            bl.save(os.path.join(self.scratch, e['path']), S)
        finally:
            del S.unserialisable

    def do_restore(self, e):
        S = bl.load(os.path.join(self.scratch, e['path']))
        kind = {'Study': 'study', 'HyperStudy': 'hyper', 'ChangepointStudy': 'cp', 'OnlineStudy': 'online'}[type(S).__name__]
        self.studies[e['s']] = (S, kind)


def main(inp, outp):
    scratch = tempfile.mkdtemp(prefix='blverif')
    d = Driver(os.path.join(scratch, 'files'))
    os.chdir(scratch)
    try:
        with open(outp, 'w') as o:
            for line in open(inp):
                e = json.loads(line)
                e['out'] = d.run(e)
                o.write(json.dumps(e) + '\n')
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main(*[os.path.abspath(a) for a in sys.argv[1:3]])
