"""Families of scenarios, one per property: family(g, k, deep) -> Trace (k: number of the trace, deep: thorough tier)."""
from gen import *

FIT = ['logE', 'log10E', 'local']


def lengths(g, o, lo=1, hi=7):
    n = g.r.randint(lo, hi)
    return max(n, 2) if o['type'] in ('ar1', 'scaledar1') else n


def times_of(o, ts):
    """time stamps results are reported for"""
    return ts[1:] if o['type'] in ('ar1', 'scaledar1') else ts


class Scene(object):
    """a study with data and models"""
    def __init__(self, g, t, s='S', kind='study', o=None, m=None, n=None, data=None, hasts=None, ts=None, order=True,
                 mk=None, tsk=None, lo=1, hi=7, missing=0.1, id_=None):
        self.g, self.t, self.s, self.kind = g, t, s, kind
        self.o = o = o or g.om()
        self.n = n = n or lengths(g, o, lo, hi)
        self.data, self.dim = data or g.data(o, n, missing=missing)
        if ts is None:
            hasts, ts = g.timestamps(n, tsk)
        self.hasts, self.ts = hasts, ts
        self.eff = times_of(o, g.effective(n, hasts, ts))
        self.m = m or (mk or (lambda o, ts: g.tm(o, ts, depth=2)))(o, self.eff)
        self.id = id_ or 'T' + s
        t('newTM', s, id=self.id, tm=self.m)
        t('newStudy', s, kind=kind, store=False)
        steps = [self.load, self.setom, self.settm]
        if order:
            g.r.shuffle(steps)
        for f in steps:
            f()

    def load(self, data=None, dim=None):
        g = self.g
        e = {'data': data or self.data, 'dim': self.dim if dim is None else dim, 'hasts': self.hasts, 'ts': [f2s(x) for x in self.ts],
             'alias': g.chance(0.3), 'as': g.pick('array', 'list', 'array'), 'tsas': g.pick('array', 'list')}
        if e['dim'] == 0 and self.o['type'] in ('poisson', 'bernoulli') and 'nan' not in e['data'] and g.chance(0.6):
            e['int'] = True
        self.t('load', self.s, **e)

    def setom(self):
        self.t('setOM', self.s, om=self.o, via=self.g.pick('set', 'long', 'short'))

    def settm(self):
        self.t('setTM', self.s, id=self.id, via=self.g.pick('set', 'long', 'short'))

    def fit(self, mode, **kw):
        self.t('fit', self.s, mode=mode, **kw)

    def hnames(self):
        return flat_names(self.m)


# -------------------------------------------------------------------------------------------------------- C01, C02
def long_series(g, t, deep):
    """a long series: intermediate results would under- or overflow without normalisation"""
    g.tame = True
    o = g.om(types=['gaussian', 'poisson', 'whitenoise', 'bernoulli', 'ar1', 'gaussianmean', 'laplace'], n=3)
    n = g.r.randint(150, 600 if deep else 260)
    kinds = ['static', 'grw', 'regime', 'independent', 'changepoint', 'static']
    return Scene(g, t, o=o, n=n, missing=0.02, mk=lambda o, ts: g.leaf(o, kinds, ts[:-1]), tsk=g.pick('default', 'shift', 'uneven'))


def big_grid(g, t, deep):
    g.tame = False
    n = g.r.randint(9, 16)
    types = ['gaussian', 'laplace', 'ar1', 'numpy', 'scipy']
    while True:
        o = g.om(types=types, n=n)
        sizes = [len(x) for x in o['grids']]
        if len(sizes) == 1:
            o['grids'] = [[f2s(x) for x in g.grid('0.4', '0.05', g.r.randint(30, 60))]]
            o['prior'] = {'kind': 'default'}
        break
    return Scene(g, t, o=o, n=g.r.randint(2, 4), mk=lambda o, ts: g.tm(o, ts, depth=1, kinds=['static', 'grw', 'grw', 'regime', 'independent']))


def inference(g, k, deep, j, modes):
    t = Trace()
    u = k % 25
    if u == 0:
        S = long_series(g, t, deep)
    elif u == 1:
        S = big_grid(g, t, deep)
    else:
        S = Scene(g, t, hi=7 if not deep else g.pick(7, 7, 14))
    for m in modes:
        S.fit(m, j=j)
    return t, S


def C01(g, k, deep):
    modes = g.pick(['full', 'forward'], ['forward', 'full'], ['full'], ['full', 'forward'])
    t, S = inference(g, k, deep, ['post', 'means'], modes)
    if S.n > 1 and S.n < 20 and g.chance(0.3):
        name = g.r.choice(S.o['names'])
        t('pds', name=name, density=False)
        t('means', name=name)
    return t


def C02(g, k, deep):
    modes = ['full', 'forward', 'evidence']
    g.r.shuffle(modes)
    t, S = inference(g, k, deep, FIT, modes)
    if g.chance(0.2):
        S.fit('evidence', both=True, j=FIT)
    return t


# -------------------------------------------------------------------------------------------------------- C03
def C03(g, k, deep):
    """mostly missing data: the distributions show the transition itself"""
    t = Trace()
    g.tame = True
    kinds = ['grw', 'stable', 'bivariate', 'regime', 'notequal', 'det', 'independent', 'changepoint', 'combined', 'serial',
             'nested', 'static', 'grw', 'det', 'serial', 'combined']
    kind = kinds[k % len(kinds)]
    types = ['gaussian', 'gaussian', 'numpy', 'ar1', 'poisson', 'gaussianmean', 'scipy']
    if kind == 'bivariate':
        types = ['gaussian', 'ar1']
    o = g.om(types=types, irregular=0.12, n=g.pick(None, None, 5, 6, 8) if kind not in ('bivariate',) else None)
    if g.chance(0.8):
        o['prior'] = g.prior_array([len(x) for x in o['grids']], zeros=False)
    n = g.r.randint(3, 7)
    hasts, ts = g.timestamps(n)
    eff = times_of(o, g.effective(n, hasts, ts))
    if kind == 'combined':
        m = tm('combined', subs=[g.leaf(o, g.LEAVES, eff) for _ in range(g.r.randint(2, 3))])
    elif kind in ('serial', 'nested'):
        nseg = g.r.randint(2, 3)
        p = g.points(eff, nseg - 1) or [eff[0], eff[0] + 1][:nseg - 1]
        if g.chance(0.2):
            p = [x - 0.5 for x in p]
        sub = ['det', 'det', 'grw', 'static', 'regime', 'independent', 'notequal']
        leafs = lambda: g.leaf(o, sub, [x - eff[0] for x in eff]) if kind == 'serial' or g.chance(0.4) else \
            tm('combined', subs=[g.leaf(o, sub, [x - eff[0] for x in eff]) for _ in range(2)])
        m = tm('serial', [hp(g.name('tb'), x, kind=g.pick('bp', 'bp', 'cp')) for x in p], subs=[leafs() for _ in range(nseg)])
        if kind == 'nested' and g.chance(0.6):
            m = tm('combined', subs=[m, g.leaf(o, g.LEAVES, eff)] if g.chance(0.5) else [g.leaf(o, g.LEAVES, eff), m])
    else:
        m = g.leaf(o, [kind], eff)
    data, dim = g.data(o, n, missing=g.pick(0.9, 0.9, 0.5, 0.0))
    S = Scene(g, t, o=o, n=n, data=(data, dim), hasts=hasts, ts=ts, m=m)
    S.fit('forward', j=['post', 'logE'])
    if g.chance(0.6):
        S.fit('full', j=['post', 'logE'])
    return t


# -------------------------------------------------------------------------------------------------------- C04
def c04_special(g, t, u):
    """boundary cases of the likelihoods"""
    nan = 'nan'
    if u == 0:    # large and zero counts
        big = g.chance(0.6)
        o = om('poisson', [g.name('rate')], [g.grid(g.pick('20', '40'), '25', 5) if big else g.grid(g.pick('0.5', '2'), g.pick('0.5', '3'), 5)],
               prior=g.pick({'kind': 'none'}, {'kind': 'default'}))
        d = [str(x) for x in ((0, g.r.randint(20, 60), 1, g.r.randint(100, 160), g.r.randint(171, 300)) if big else (0, 1, 4, 12, 21))]
        g.r.shuffle(d)
        d = d[:g.r.randint(1, 5)]
    elif u == 1:  # p on the boundary: impossible observations
        o = om('bernoulli', [g.name('p')], [[Fraction(i, 4) for i in range(5)]], prior=NOPRIOR)
        d = [str(g.r.randint(0, 1)) for _ in range(g.r.randint(1, 5))]
    elif u == 2:  # parameter values outside the support
        o = om('bernoulli', [g.name('p')], [g.grid('-0.5', '0.25', 9)], prior=NOPRIOR)
        d = [str(g.r.randint(0, 1)) for _ in range(g.r.randint(1, 4))]
    elif u == 3:  # observations outside the support of some parameter values
        o = om('scipy', ['loc'], [g.grid('-1', '0.5', 6)], dist=g.pick('expon', 'uniform'), prior=NOPRIOR,
               fixed={'scale': g.dec(1, 3, 2)})
        d = [f2s(g.dec(-0.3, 0.9, 2)) for _ in range(g.r.randint(1, 4))]
    elif u == 4:  # autoregressive models with missing data
        o = g.om(types=['ar1', 'scaledar1'])
        n = g.r.randint(3, 8)
        d = [nan if g.chance(0.35) else f2s(g.dec(-2, 2, 2)) for _ in range(n)]
    elif u == 5:  # vectors with missing components
        o = g.om(types=['gaussian', 'poisson', 'laplace', 'whitenoise', 'ar1', 'bernoulli', 'scipy', 'sympy', 'scaledar1'])
        return o, g.data(o, g.r.randint(2, 5), missing=0.4, dims=g.r.randint(1, 3))
    elif u == 6:  # all data missing
        o = g.om()
        d, dim = g.data(o, lengths(g, o), missing=1.0)
        return o, (d, dim)
    elif u == 7:  # pairs
        o = g.om(types=['gaussianmean'])
        return o, g.data(o, g.r.randint(1, 5), missing=0.3)
    elif u == 8:  # zero in the grid of a rate; zero and non-zero counts
        o = om('poisson', [g.name('rate')], [g.grid('0', '0.5', 5)], prior=NOPRIOR)
        d = [str(g.pick(0, 0, 1, 3)) for _ in range(g.r.randint(1, 4))]
    else:         # counts of binomial and Poisson distributions
        o = om('scipy', ['p'], [[Fraction(i, 5) for i in range(6)]], dist='binom', fixed={'n': g.r.randint(1, 9)}, prior=NOPRIOR)
        d = [str(g.r.randint(0, int(o['fixed']['values'][0]))) for _ in range(g.r.randint(1, 4))]
    return o, (d, 0)


def C04(g, k, deep):
    t = Trace()
    if k % 2:
        o, data = c04_special(g, t, (k//2) % 10)
        S = Scene(g, t, o=o, n=len(data[0]), data=data, m=STATIC if g.chance(0.7) else g.leaf(o, ['grw', 'static', 'independent']))
    else:
        o = g.om(types=[Gen.OMS[(k//2) % len(Gen.OMS)]])
        S = Scene(g, t, o=o, mk=lambda o, ts: STATIC if g.chance(0.7) else g.leaf(o, ['grw', 'regime', 'independent']), missing=g.pick(0.0, 0.2))
    S.fit(g.pick('full', 'forward'))
    S.fit('evidence')
    if S.o['type'] not in ('ar1', 'scaledar1', 'gaussianmean', 'numpy') and g.chance(0.5):
        S.fit('forward')
        simulate(g, t, S)
    return t


def support(g, o):
    """values to evaluate the predictive distribution at"""
    ty, d = o['type'], o['dist']
    if ty == 'poisson' or d in ('poisson', 'binom'):
        return [str(x) for x in sorted(g.r.sample(range(0, 5 if d == 'binom' else 12), 4))]
    if ty == 'bernoulli':
        return ['0', '1']
    return [f2s(x) for x in sorted(g.dec(-2, 3, 2) for _ in range(5))]


def simulate(g, t, S):
    if S.o['type'] in ('gaussianmean',) or (S.o['type'] == 'numpy' and S.o['f'] == 'pair'):
        return
    t('simulate', S.s, t=g.pick('none', *[f2s(x) for x in S.eff]), x=support(g, S.o), density=g.chance(0.5))


# -------------------------------------------------------------------------------------------------------- C05
def scaled(pr, c):
    """the same prior, rescaled"""
    q = dict(pr)
    if pr['kind'] == 'array':
        q['v'] = [repr(float(x)*c) for x in pr['v']]
        q.pop('int', None)
    elif pr['kind'] == 'func':
        q['c'] = [repr(float(pr['c'][0])*c)] + pr['c'][1:]
        if pr['f'] == 'absp':
            q['c'] = [repr(float(x)*c) for x in pr['c']]
    return q


def as_array(o, pr):
    """array representation of a function prior"""
    import itertools
    v = []
    for p in itertools.product(*[[float(x) for x in a] for a in o['grids']]):
        c = [float(x) for x in pr['c']]
        if pr['f'] == 'const':
            v.append(c[0])
        elif pr['f'] == 'expo':
            v.append(c[0]*math.exp(sum(a*b for a, b in zip(c[1:], p))))
        else:
            v.append(c[0] + sum(a*abs(b) for a, b in zip(c[1:], p)))
    return {'kind': 'array', 'v': [repr(x) for x in v], 'shape': [len(a) for a in o['grids']]}


def C05(g, k, deep):
    t = Trace()
    if k % 3 == 2:
        return c05_hyper(g, k, t)
    o = g.om(irregular=0.25)
    ks = ['default', 'none', 'array', 'func', 'sympy']
    kind = ks[(k//3) % 5]
    axes = [[Fraction(x) for x in a] for a in o['grids']]
    if kind == 'array':
        o['prior'] = g.prior_array([len(a) for a in axes], zeros=True)
    elif kind == 'func':
        o['prior'] = g.prior_func(len(axes))
    elif kind == 'sympy':
        o['prior'] = {'kind': 'sympy', 'rv': [g.rv(a) for a in axes]}
    else:
        o['prior'] = {'kind': kind}
    S = Scene(g, t, o=o, hi=5, mk=lambda o, ts: g.leaf(o, ['static', 'grw', 'changepoint', 'independent', 'regime'], ts))
    S.fit(g.pick('full', 'forward'))
    variants = [{'kind': 'none'}, {'kind': 'default'}]
    if kind in ('array', 'func'):
        variants = [scaled(o['prior'], g.pick(0.001, 0.5, 2, 1000, 7.25)), scaled(o['prior'], g.pick(1e-6, 3, 1e6))]
    if kind == 'func':
        variants.append(as_array(o, o['prior']))
    for v in variants[:2 if not deep else 3]:
        q = dict(o)
        q['prior'] = v
        S.o = q
        S.setom()
        S.fit(g.pick('full', 'forward', 'evidence'))
    return t


def c05_hyper(g, k, t):
    o = g.om(types=['gaussian', 'poisson', 'gaussianmean', 'whitenoise'], n=4)
    S = Scene(g, t, kind='hyper', o=o, lo=2, hi=4, mk=lambda o, ts: g.hypertm(o, ts, maxc=9, minc=2))
    S.fit(g.pick('full', 'evidence'))
    hp_reads(g, t, S, 2)
    # rescaled hyper-priors
    import copy
    m = copy.deepcopy(S.m)
    for h in flat_hp(m):
        h['prior'] = scaled(h['prior'], g.pick(0.01, 3, 50))
    t('newTM', id='T2', tm=m)
    t('setTM', id='T2')
    S.fit(g.pick('forward', 'evidence'))
    hp_reads(g, t, S, 2)
    return t


# -------------------------------------------------------------------------------------------------------- C06 - C08
def hp_reads(g, t, S, k, plot=False):
    names = S.hnames()
    for _ in range(k):
        if len(names) > 1 and g.chance(0.5):
            a, b = g.r.sample(names, 2)
            t('jhpd', S.s, n1=a, n2=b, alias=g.chance(0.5), plot=plot and g.chance(0.4))
        elif names:
            t('hpd', S.s, name=g.r.choice(names), alias=g.chance(0.5), plot=plot and g.chance(0.4))


def all_hp_reads(g, t, S):
    names = S.hnames()
    for n in names:
        t('hpd', S.s, name=n, alias=g.chance(0.5))
    for i, a in enumerate(names):
        for b in names[i+1:]:
            x, y = (a, b) if g.chance(0.5) else (b, a)
            t('jhpd', S.s, n1=x, n2=y, alias=g.chance(0.5))


SMALL = ['gaussian', 'poisson', 'gaussianmean', 'whitenoise', 'bernoulli', 'ar1', 'laplace']


def C06(g, k, deep):
    t = Trace()
    o = g.om(types=SMALL, n=g.pick(3, 4, 5))
    S = Scene(g, t, kind='hyper', o=o, lo=2, hi=5, mk=lambda o, ts: g.hypertm(o, ts, maxc=10 if not deep else 24, minc=1))
    S.fit(g.pick('full', 'full', 'forward', 'evidence'))
    all_hp_reads(g, t, S)
    if g.chance(0.3):
        S.fit(g.pick('full', 'forward', 'evidence'))
        hp_reads(g, t, S, 1)
    t('hpvalue', name=g.r.choice(S.hnames()))
    return t


def permutation(g, n):
    p = list(range(n))
    g.r.shuffle(p)
    return p


def C07(g, k, deep):
    t = Trace()
    kind = g.pick('hyper', 'hyper', 'cp')
    real = k % 12 == 0
    o = g.om(types=SMALL, n=g.pick(3, 4))
    mk = (lambda o, ts: g.hypertm(o, ts, maxc=8 if not deep else 16, minc=2)) if kind == 'hyper' else (lambda o, ts: g.cptm(o, ts, maxc=12))
    S = Scene(g, t, kind=kind, o=o, lo=3, hi=5, mk=mk)
    mode = g.pick('full', 'full', 'forward', 'evidence')
    c = g.combos(S.m, len(S.eff))
    jobs = g.r.randint(2, c + 3)
    pool = {'jobs': min(jobs, 6)} if real else {'jobs': jobs, 'pool': 'fake', 'order': permutation(g, jobs)}
    S.fit(mode, **pool)
    all_hp_reads(g, t, S)
    t('hpvalue', name=g.r.choice(S.hnames()))
    if g.chance(0.5):    # the study is left as after a single-process fit
        S.fit(g.pick('full', 'forward', 'evidence'), **(pool if g.chance(0.5) and not real else {}))
        hp_reads(g, t, S, 1)
        t('inputs')
    return t


def C08(g, k, deep):
    t = Trace()
    o = g.om(types=SMALL, n=g.pick(3, 4))
    S = Scene(g, t, kind='cp', o=o, lo=3, hi=6, mk=lambda o, ts: g.cptm(o, ts, maxc=20 if not deep else 60))
    S.fit(g.pick('full', 'full', 'forward', 'evidence'))
    all_hp_reads(g, t, S)
    pts = g.point_names(S.m)
    for i, a in enumerate(pts):
        for b in pts[i+1:]:
            x, y = (a, b) if g.chance(0.5) else (b, a)
            t('dd', n1=x, n2=y, alias=g.chance(0.5))
    if g.chance(0.3):
        S.fit(g.pick('full', 'evidence'))
        hp_reads(g, t, S, 1)
    return t


# -------------------------------------------------------------------------------------------------------- C09, C10
def steps(g, t, o, data, dim, s='S'):
    for x in data:
        e = {'x': x, 'dim': dim}
        if dim == 0 and o['type'] in ('poisson', 'bernoulli') and x != 'nan' and g.chance(0.5):
            e['int'] = True
        t('step', s, **e)
        yield


def C09(g, k, deep):
    t = Trace()
    o = g.om(n=g.pick(None, 3, 4))
    n = g.r.randint(2, 7)
    data, dim = g.data(o, n)
    several = k % 4 == 3
    store = g.chance(0.6)
    t('newStudy', kind='online', store=store)
    if several:
        ms = [g.hypertm(o, list(range(n)), maxc=4) if g.chance(0.6) else g.leaf(o, ['static', 'grw', 'independent', 'regime'], range(n))
              for _ in range(g.r.randint(1, 3))]
    else:
        ms = [g.tm(o, list(range(n)), depth=2)]
    for i, m in enumerate(ms):
        t('newTM', id='T{}'.format(i), tm=m)
    t('setOM', om=o, via=g.pick('set', 'long'))
    if len(ms) == 1 and g.chance(0.5):
        t('setTM', id='T0', via=g.pick('set', 'long'))
    else:
        for i, m in enumerate(ms):
            t('addTM', name='model{}'.format(i), id='T{}'.format(i), via=g.pick('long', 'short', 'add'))
    for i, _ in enumerate(steps(g, t, o, data, dim)):
        if i >= 1 and g.chance(0.4):
            online_reads(g, t, o, i, store, 1, tms=False)
    online_reads(g, t, o, n - 1, store, 3, tms=False)
    # the same data at once
    if not several:
        t('newTM', id='TB', tm=ms[0])
        t('newStudy', 'B', kind='study', store=False)
        t('load', 'B', data=data, dim=dim, hasts=False, ts=[])
        t('setOM', 'B', om=o)
        t('setTM', 'B', id='TB')
        t('fit', 'B', mode='forward')
    return t


def online_reads(g, t, o, i, store, k, tms=True, names=(), hnames=(), s='S', plot=False):
    """read-outs after step i (0-based)"""
    first = 1 if o['type'] in ('ar1', 'scaledar1') else 0
    if i < first:
        return
    times = list(range(first, i + 1))
    for _ in range(k):
        opts = ['cpd', 'cpm'] + (['pd', 'meanat', 'means', 'pds', 'pdavg'] if store else [])
        if tms:
            opts = ['cpd', 'ctmd', 'ctmp', 'ctmd', 'ctmp'] + (['tmds', 'tmps', 'tmds', 'tmps', 'pd'] if store else [])
            if hnames:
                opts += ['chpd', 'chpd'] + (['hpdt', 'hpds', 'hpmean', 'hpmeans', 'hpdavg']*2 if store else [])
        c = g.r.choice(opts)
        name = g.r.choice(o['names'])
        e = {'alias': g.chance(0.5)}
        if c in ('cpd', 'pd', 'pds', 'pdavg'):
            e.update(name=name, density=g.chance(0.5), plot=plot and g.chance(0.3))
            if c == 'pds' and len(times) < 2:
                continue
            if c == 'pd':
                e['t'] = str(g.r.choice(times))
            if c == 'pdavg':
                c, e['t'] = 'pd', 'avg'
        elif c in ('cpm', 'means'):
            e['name'] = name
        elif c == 'meanat':
            e.update(name=name, t=str(g.r.choice(times)))
        elif c in ('ctmd', 'tmds'):
            e['local'] = g.chance(0.5)
        elif c in ('ctmp', 'tmps'):
            e.update(name=g.r.choice(list(names)), local=g.chance(0.5))
        elif c in ('chpd', 'hpds', 'hpmeans'):
            e['name'] = g.r.choice(list(hnames))
        elif c in ('hpdt', 'hpmean'):
            e.update(name=g.r.choice(list(hnames)), t=str(g.r.choice(times)))
        elif c == 'hpdavg':
            c = 'hpdt'
            e.update(name=g.r.choice(list(hnames)), t='avg')
        if c in ('chpd', 'hpdt') and plot and g.chance(0.3):
            e['plot'] = True
        t(c, s, **e)


def c10_setup(g, t, o, n, s='S', store=None, maxm=3):
    store = g.chance(0.7) if store is None else store
    t('newStudy', s, kind='online', store=store)
    t('setOM', s, om=o)
    ms = []
    for i in range(g.r.randint(1, maxm)):
        if g.chance(0.7):
            m = g.hypertm(o, list(range(n)), maxc=5)
        else:
            m = g.leaf(o, ['static', 'grw', 'independent', 'regime', 'notequal'], list(range(n)))
        ms.append(m)
        t('newTM', s, id=s + 'T{}'.format(i), tm=m)
        t('addTM', s, name='m{}'.format(i), id=s + 'T{}'.format(i), via=g.pick('long', 'short', 'add'))
    if g.chance(0.3):
        v = [g.pick(1, 2, 0.5, 0.25, 3) for _ in ms]
        t('tmprior', s, v=[f2s(x) for x in v], **{'as': g.pick('list', 'array')})
    return store, ms, ['m{}'.format(i) for i in range(len(ms))], [x for m in ms for x in flat_names(m)]


def C10(g, k, deep):
    t = Trace()
    impossible = k % 5 == 4
    if impossible:   # a model that rules out some data (static) competes with models that allow for a jump
        return c10_impossible(g, t)
    o = g.om(types=SMALL, n=g.pick(3, 4))
    n = g.r.randint(3, 7)
    data, dim = g.data(o, n)
    store, ms, names, hn = c10_setup(g, t, o, n)
    for i, _ in enumerate(steps(g, t, o, data, dim)):
        online_reads(g, t, o, i, store, g.r.randint(0, 2), names=names, hnames=hn)
    online_reads(g, t, o, n - 1, store, 5, names=names, hnames=hn)
    if g.chance(0.3):
        t('inputs')
    return t


def c10_impossible(g, t):
    o = om('numpy', [g.name('a')], [g.grid('0', '1', 5)], f='table', prior=NOPRIOR) if g.chance(0.5) else \
        om('scipy', ['loc'], [g.grid('0', '1', 5)], dist='uniform', fixed={'scale': 1.4}, prior=NOPRIOR)
    n = g.r.randint(3, 6)
    store = g.chance(0.7)
    t('newStudy', kind='online', store=store)
    t('setOM', om=o)
    ms = [STATIC, tm('regime', [hp(g.name('pmin'), -2)])]
    if g.chance(0.6):
        v = [0, g.pick(0.8, 1.3)]
        ms.append(tm('grw', [hp(g.name('sigma'), v, scalar=False)], target=o['names'][0]))
    if g.chance(0.4):
        ms.append(tm('changepoint', [hp(g.name('tc'), [0, 1, 2], scalar=False)]))
    g.r.shuffle(ms)
    for i, m in enumerate(ms):
        t('newTM', id='T{}'.format(i), tm=m)
        t('addTM', name='m{}'.format(i), id='T{}'.format(i))
    names, hn = ['m{}'.format(i) for i in range(len(ms))], [x for m in ms for x in flat_names(m)]
    x = [g.dec(0.1, 5.2, 2) for _ in range(n)]
    for i, _ in enumerate(steps(g, t, o, [f2s(y) for y in x], 0)):
        online_reads(g, t, o, i, store, g.r.randint(0, 2), names=names, hnames=hn)
    online_reads(g, t, o, n - 1, store, 4, names=names, hnames=hn)
    return t


# -------------------------------------------------------------------------------------------------------- C11
def variant(g, o):
    """another observation model with the same parameter names"""
    import copy
    q = copy.deepcopy(o)
    swap = {'gaussian': 'laplace', 'laplace': 'gaussian', 'ar1': 'scaledar1', 'scaledar1': 'ar1'}
    if q['type'] in swap and g.chance(0.4):
        q['type'] = swap[q['type']]
    for a in range(len(q['grids'])):
        v = [Fraction(x) for x in q['grids'][a]]
        if q['type'] == 'bernoulli':
            k = g.r.randint(3, 7)
            v = [Fraction(i + 1, k + 1) for i in range(k)]
        else:
            step = (v[1] - v[0])*g.pick(1, 1, 2, Fraction(1, 2))
            k = max(3, len(v) + g.pick(-1, 0, 1))
            while a == 0 and q['type'] in ('ar1', 'scaledar1') and v[0] + (k - 1)*step >= 1:
                step /= 2
            v = [v[0] + i*step for i in range(k)]
        q['grids'][a] = [f2s(x) for x in v]
    axes = [[Fraction(x) for x in a] for a in q['grids']]
    q['prior'] = g.prior(axes)
    return q


def compatible(g, t, oms):
    """no value of a hyper-parameter is at a discontinuity of the transition model on these grids"""
    for s in t['subs']:
        if not compatible(g, s, oms):
            return False
    for o in oms:
        for j, h in enumerate(t['hp']):
            for x in h['v']:
                if t['type'] == 'grw':
                    u = 4*float(x)/g.lattice(o, o['names'].index(t['target'])) + 0.5
                    if float(x) and abs(u - round(u)) < 1e-3:
                        return False
                if t['type'] == 'bivariate' and j < 2:
                    u = float(x)/g.lattice(o, j)
                    if abs(u - round(u)) < 1e-3:
                        return False
                if t['type'] == 'stable' and j == 0 and float(x) < g.lattice(o, o['names'].index(t['target'])):
                    return False
    return True


class History(object):
    """studies that share model objects; random sequences of operations"""
    TYPES = ['gaussian', 'laplace', 'poisson', 'bernoulli', 'ar1', 'scaledar1', 'whitenoise', 'gaussianmean']

    def __init__(self, g, t, kinds):
        self.g, self.t = g, t
        o = g.om(types=self.TYPES, irregular=0, n=g.pick(3, 4))
        self.oms = [o] + [variant(g, o) for _ in range(g.r.randint(0, 2))]
        self.times = list(range(6))
        self.tms = []
        need = set(kinds)
        for want in [k for k in ('study', 'hyper', 'cp') if k in need] + [g.r.choice(sorted(need - {'online'}) or ['study']) for _ in range(g.r.randint(1, 2))]:
            for _ in range(100):
                if want == 'study':
                    m = g.tm(o, self.times, depth=2)
                elif want == 'hyper':
                    m = g.hypertm(o, self.times, maxc=6)
                else:
                    m = g.cptm(o, self.times, maxc=15)
                if compatible(g, m, self.oms):
                    break
            else:
                m = STATIC if want != 'cp' else tm('changepoint', [hp(g.name('t'), [], scalar=False, all_=True)])
            id_ = 'T{}'.format(len(self.tms))
            self.tms.append((id_, m, want))
            t('newTM', id=id_, tm=m)
        self.st = {}
        self.online = {}
        for i, k in enumerate(kinds):
            self.add('S{}'.format(i), k)

    def scalar(self, m):
        return all(h['scalar'] and not h['all'] for h in flat_hp(m))

    def usable(self, kind):
        if kind == 'study':
            return [x for x in self.tms if self.scalar(x[1])] or [None]
        if kind == 'cp':
            return [x for x in self.tms if x[2] == 'cp']
        if kind == 'hyper':
            return [x for x in self.tms if x[2] in ('study', 'hyper')] or [None]
        return [x for x in self.tms if not any(h['all'] for h in flat_hp(x[1]))]

    def add(self, s, kind):
        g, t = self.g, self.t
        store = g.chance(0.7)
        t('newStudy', s, kind=kind, store=store)
        self.st[s] = {'kind': kind, 'om': None, 'tm': None, 'store': store, 'n': 0}
        if kind == 'online':
            self.setom(s)
            models = self.usable('online') or [None]
            names = []
            for i in range(g.r.randint(1, 2)):
                m = g.r.choice(models)
                if m is None or set(flat_names(m[1])) & set(names):
                    continue
                names += flat_names(m[1])
                t('addTM', s, name='m{}'.format(i), id=m[0])
                self.st[s]['tm'] = m
            if self.st[s]['tm'] is None:
                t('newTM', s, id=s + 'static', tm=STATIC)
                t('addTM', s, name='m', id=s + 'static')
            return
        steps = [self.load, self.setom, self.settm]
        g.r.shuffle(steps)
        for f in steps:
            f(s)

    def load(self, s):
        g = self.g
        o = self.st[s]['om'] or self.oms[0]
        n = g.r.randint(2, 6)
        data, dim = g.data(self.oms[0], n)
        hasts, ts = g.timestamps(n)
        self.t('load', s, data=data, dim=dim, hasts=hasts, ts=[f2s(x) for x in ts])
        self.st[s]['eff'] = times_of(self.oms[0], g.effective(n, hasts, ts))

    def setom(self, s):
        i = self.g.r.randrange(len(self.oms))
        self.st[s]['om'] = self.oms[i]
        self.t('setOM', s, om=self.oms[i], **({'omid': 'O{}'.format(i)} if self.g.chance(0.7) else {}))

    def settm(self, s):
        m = self.g.r.choice(self.usable(self.st[s]['kind']))
        if m is None:
            self.t('newTM', s, id=s + 'static', tm=STATIC)
            m = (s + 'static', STATIC, 'study')
        self.st[s]['tm'] = m
        self.t('setTM', s, id=m[0])

    def fit(self, s):
        kw = {}
        if self.st[s]['kind'] in ('hyper', 'cp') and self.g.chance(0.25):
            jobs = self.g.r.randint(2, 5)
            kw = {'jobs': jobs, 'pool': 'fake', 'order': permutation(self.g, jobs)}
        self.t('fit', s, mode=self.g.pick('full', 'full', 'forward', 'evidence'), **kw)

    def interrupt(self, s):
        self.t('interrupt', s, mode=self.g.pick('full', 'forward', 'evidence'), after=self.g.r.randint(0, 9))

    def bad(self, s):
        if self.g.chance(0.5):
            self.t('badset', s, what=self.g.pick('string', 'number', 'none'))
        else:
            self.t('badload', s, what=self.g.pick('string', 'number', 'dict', 'tuple', 'none'))

    def optimize(self, s):
        m = self.st[s]['tm'][1]
        names = flat_names(m)
        if self.st[s]['kind'] != 'study' or not names or 'static' == m['type'] or 'bivariate' in types_in(m) or set(self.g.point_names(m)) >= set(names):
            return
        self.t('optimize', s, names=[], all=names, mode='full', tol='1', opts={'maxiter': 4, 'rhobeg': 0.0531},
               j=['post', 'means', 'logE', 'log10E', 'local'])

    def reads(self, s, k=1, plot=False):
        g, t, S = self.g, self.t, self.st[s]
        o = S['om']
        if S['kind'] == 'online':
            if S['n']:
                online_reads(g, t, o, S['n'] - 1, S['store'], k, tms=False, s=s)
            return
        for _ in range(k):
            read_one(g, t, s, o, S['eff'], flat_names(S['tm'][1]) if S['kind'] != 'study' else [], cp=S['kind'] == 'cp',
                     pts=g.point_names(S['tm'][1]), plot=plot)

    def step(self, s):
        g, S = self.g, self.st[s]
        data, dim = g.data(self.oms[0], 1, dims=0 if self.oms[0]['type'] != 'gaussianmean' else None)
        self.t('step', s, x=data[0], dim=dim)
        S['n'] += 1

    def saverestore(self, s):
        f = 'file{}.bl'.format(self.g.uid)
        self.g.uid += 1
        self.t('save', s, path=f)
        self.t('restore', s, path=f)
        if self.st[s]['tm']:
            self.st[s]['tm'] = (s + ':tm',) + self.st[s]['tm'][1:]


def read_one(g, t, s, o, eff, hnames=(), cp=False, pts=(), plot=False, what=None):
    """one read-out of a fitted study"""
    opts = ['pd', 'pd', 'pds', 'means', 'pdavg', 'results', 'hpvalue']
    if hnames:
        opts += ['hpd', 'hpd'] + (['jhpd'] if len(hnames) > 1 else [])
        if cp and len(pts) > 1:
            opts += ['dd']
    if o['type'] not in ('ar1', 'scaledar1', 'gaussianmean', 'numpy'):
        opts += ['simulate']
    if plot:
        opts += ['plot', 'plotat', 'evolution']
    c = what or g.r.choice(opts)
    name = g.r.choice(o['names'])
    e = {'alias': g.chance(0.5)}
    if c in ('pd', 'pds', 'pdavg'):
        e.update(name=name, density=g.chance(0.5), plot=plot and g.chance(0.4))
        if c == 'pd':
            e['t'] = f2s(g.r.choice(eff))
        if c == 'pdavg':
            c, e['t'] = 'pd', 'avg'
    elif c == 'means':
        e['name'] = name
    elif c == 'hpvalue':
        if not hnames:
            c = 'results'
        else:
            e['name'] = g.r.choice(list(hnames))
    elif c == 'hpd':
        e.update(name=g.r.choice(list(hnames)), plot=plot and g.chance(0.4))
    elif c == 'jhpd':
        a, b = g.r.sample(list(hnames), 2)
        e.update(n1=a, n2=b, plot=plot and g.chance(0.2))
    elif c == 'dd':
        a, b = g.r.sample(list(pts), 2)
        e.update(n1=a, n2=b, plot=plot and g.chance(0.4))
    elif c == 'simulate':
        e.update(t=g.pick('none', *[f2s(x) for x in eff]), x=support(g, o), density=g.chance(0.5))
    elif c in ('plot', 'plotat', 'evolution'):
        e.update(what=c, name=name)
        if c == 'plotat':
            e['t'] = f2s(g.r.choice(eff))
        c = 'plot'
    t(c, s, **e)


def C11(g, k, deep):
    t = Trace()
    kinds = [['study'], ['study', 'study'], ['hyper'], ['cp'], ['hyper', 'hyper'], ['cp', 'cp'], ['study', 'hyper'],
             ['study', 'online'], ['hyper', 'online'], ['study', 'study', 'hyper'], ['cp', 'study'], ['online', 'online']][k % 12]
    h = History(g, t, kinds)
    for _ in range(g.r.randint(6, 11) if not deep else g.r.randint(8, 22)):
        s = g.r.choice(sorted(h.st))
        S = h.st[s]
        if S['kind'] == 'online':
            g.r.choice([h.step, h.step, h.step, h.step, h.reads, h.saverestore])(s)
            continue
        f = g.r.choice([h.load, h.setom, h.settm, h.settm, h.fit, h.fit, h.fit, h.fit, h.interrupt, h.bad, h.reads, h.saverestore, h.optimize])
        f(s)
        if f in (h.load, h.setom, h.settm, h.interrupt) and g.chance(0.5):
            h.fit(s)
            h.reads(s)
    for s in sorted(h.st):
        if h.st[s]['kind'] == 'online':
            h.step(s)
        else:
            h.fit(s)
        h.reads(s, 2)
    t('inputs')
    return t


# -------------------------------------------------------------------------------------------------------- C12
def C12(g, k, deep):
    t = Trace()
    kind = ['study', 'hyper', 'cp', 'online'][k % 4]
    o = g.om(types=SMALL + ['scipy', 'sympy', 'numpy'], n=g.pick(3, 4))
    if kind == 'online':
        n = g.r.randint(3, 6)
        data, dim = g.data(o, n)
        store, ms, names, hn = c10_setup(g, t, o, n)
        for i, _ in enumerate(steps(g, t, o, data, dim)):
            online_reads(g, t, o, i, store, g.r.randint(0, 3), names=names, hnames=hn, plot=True)
        for _ in range(g.r.randint(4, 9)):
            online_reads(g, t, o, n - 1, store, 1, names=names, hnames=hn, tms=g.chance(0.7), plot=True)
            if g.chance(0.3):
                online_eval(g, t, o, ms, store, n)
        # everything once more
        again = [dict(e) for e in t.ev if e['c'] not in ('newStudy', 'newTM', 'setOM', 'addTM', 'tmprior', 'step', 'inputs')][-8:]
        g.r.shuffle(again)
        t.ev += again
        t('inputs')
        return t
    mk = {'study': lambda o, ts: g.tm(o, ts, depth=2), 'hyper': lambda o, ts: g.hypertm(o, ts, maxc=8),
          'cp': lambda o, ts: g.cptm(o, ts, maxc=15)}[kind]
    S = Scene(g, t, kind=kind, o=o, lo=3 if kind == 'cp' else 2, hi=5, mk=mk)
    mode = g.pick('full', 'full', 'forward', 'evidence' if kind != 'study' else 'full')
    S.fit(mode)
    hn = S.hnames() if kind != 'study' else []
    calls = []
    for _ in range(g.r.randint(4, 8)):
        i = len(t.ev)
        if mode == 'evidence':
            if not hn:
                break
            read_one(g, t, 'S', o, S.eff, hn, what='hpd', plot=True)
        else:
            read_one(g, t, 'S', o, S.eff, hn, cp=kind == 'cp', pts=g.point_names(S.m), plot=True)
            if g.chance(0.25):
                query(g, t, [scope(S)])
        calls += t.ev[i:]
    again = [dict(e) for e in calls]
    g.r.shuffle(again)
    t.ev += again
    t('results')
    t('inputs')
    if g.chance(0.4):
        S.fit(g.pick('full', 'forward'))
        for e in g.r.sample(calls, min(3, len(calls))):
            t.ev.append(dict(e))
        t('inputs')
    return t


# -------------------------------------------------------------------------------------------------------- C13
def scope(S, s=None):
    """names available to queries: dict(s, pars, times, hyper)"""
    return {'s': s or S.s, 'pars': [(n, [Fraction(x) for x in a]) for n, a in zip(S.o['names'], S.o['grids'])], 'times': S.eff,
            'hyper': [[(h['name'], [Fraction(x) for x in h['v']]) for h in flat_hp(S.m) if not h['all']]] if S.kind != 'study' else [],
            'last': False}


PREC = {'+': 1, '-': 1, '*': 2, '/': 2, '^': 4}


def render(e, g, p=0):
    """expression -> string, parentheses only where needed (and sometimes where not)"""
    k = e['k']
    if k == 'num':
        s, q = e['v'], 9
        if s.startswith('-'):
            s, q = s, 0
    elif k == 'par':
        s, q = e['name'] + ('@' + e['at'] if e['at'] != 'none' else ''), 5
        if e['at'].startswith('-'):
            s = '{}@({})'.format(e['name'], e['at'])
    elif k == 'fn':
        if e['f'] == 'neg':
            s, q = '-' + render(e['a'], g, 3), 3
        else:
            return '{}({})'.format(e['f'], render(e['a'], g, 0))
    else:
        q = PREC[e['o']]
        left, right = q, q + 1
        if e['o'] == '^':
            left, right = 5, 5
        sp = g.pick('', ' ')
        s = render(e['a'], g, left) + sp + e['o'] + sp + render(e['b'], g, right)
    return '({})'.format(s) if q < p or (p and g.chance(0.1)) else s


def enumeral(g, x):
    return {'k': 'num', 'v': f2s(x)}


def op(o, a, b):
    return {'k': 'op', 'o': o, 'a': a, 'b': b}


def source_expr(g, atoms, depth):
    """arithmetic expression of values of one source of randomness (and numbers)"""
    if depth == 0 or g.chance(0.35):
        a = dict(g.r.choice(atoms))
        if g.chance(0.12):
            return {'k': 'fn', 'f': g.pick('neg', 'abs', 'square', 'exp'), 'a': a}
        return a
    a = source_expr(g, atoms, depth - 1)
    b = source_expr(g, atoms, depth - 1) if g.chance(0.5) else enumeral(g, g.pick(Fraction(1, 2), 2, 3, Fraction(5, 4), Fraction(3, 8)))
    if g.chance(0.5):
        a, b = b, a
    o = g.pick('+', '-', '*', '-', '+', '*', '/')
    if a['k'] == 'num' and o == '/':
        a, b = b, a
    if o == '/':
        b = enumeral(g, g.pick(2, 4, Fraction(1, 2))) if g.chance(0.7) else b
        if b['k'] != 'num':
            o = '-'
    if g.chance(0.08) and a['k'] != 'num':
        return op('^', a, enumeral(g, g.pick(2, 3)))
    return op(o, a, b)


def exact(e):
    """no rounding errors with dyadic values"""
    if e['k'] in ('num', 'par'):
        return True
    if e['k'] == 'fn':
        return e['f'] in ('neg', 'abs', 'square') and exact(e['a'])
    if e['o'] == '/':
        return exact(e['a']) and e['b']['k'] == 'num'
    return exact(e['a']) and exact(e['b'])


def dyadic(sc):
    r = True
    for c in sc:
        for n, v in c['pars'] + [x for h in c['hyper'] for x in h]:
            r = r and all((x*1024).denominator == 1 for x in v)
    return r


def query(g, t, sc, maxsrc=3, reuse=False, **kw):
    """a query on the studies with scopes sc"""
    sources = []       # lists of atoms
    glob = 'none'
    common = [x for x in sc[0]['times'] if all(x in c['times'] for c in sc)]
    if common and not any(c['last'] for c in sc) and g.chance(0.4):
        glob = f2s(g.r.choice(common))
    size = {}
    for c in sc:
        if c['last']:
            sources.append([{'k': 'par', 'name': n, 'at': 'none'} for n, _ in c['pars']])
        elif glob != 'none':
            sources.append([{'k': 'par', 'name': n, 'at': 'none'} for n, _ in c['pars']])
        else:
            for x in g.r.sample(list(c['times']), min(2, len(c['times']))):
                sources.append([{'k': 'par', 'name': n, 'at': f2s(x)} for n, _ in c['pars']])
        for hy in c['hyper']:
            if not hy:
                continue
            at = ['none']
            if c.get('online') and not c['last'] and glob == 'none':
                at = [f2s(x) for x in g.r.sample(list(c['times']), min(2, len(c['times'])))]
            for a in at:
                sources.append([{'k': 'par', 'name': n, 'at': a} for n, _ in hy])
    g.r.shuffle(sources)
    m = min(g.pick(1, 1, 1, 2, 2, 3), maxsrc, len(sources))
    parts = [source_expr(g, a, g.pick(0, 1, 1, 2)) for a in sources[:m]]
    if reuse and m > 1:
        parts.append(source_expr(g, sources[0], 0))
    rel = g.pick('<', '>', '<=', '>=', '==', '<', '>', '')
    split = g.r.randint(1, len(parts)) if rel and len(parts) > 1 else len(parts)

    def join(ps):
        e = ps[0]
        for x in ps[1:]:
            e = op(g.pick('+', '-', '*'), e, x) if g.chance(0.7) else op(g.pick('+', '-', '*'), x, e)
        return e
    lhs = join(parts[:split])
    rhs = join(parts[split:]) if split < len(parts) else None
    ok = dyadic(sc) and exact(lhs) and (rhs is None or exact(rhs))
    if rel and rhs is None:
        # a threshold: between the values, or exactly one of them if there are no rounding errors
        rhs = enumeral(g, g.pick(0, 1, 2, Fraction(1, 2), Fraction(3, 4), Fraction(3, 2))) if ok else \
            enumeral(g, g.pick(0.317, 1.0931, 2.4173, -0.5571, 3.1379))
    elif rel and not ok:
        rhs = op('+', rhs, enumeral(g, g.pick(0.0317, 0.10931, -0.04173)))
    q = render(lhs, g)
    if rel:
        sp = g.pick('', ' ')
        if g.chance(0.25) :
            lhs, rhs = rhs, lhs
        q = render(lhs, g) + sp + rel + sp + render(rhs, g)
    e = {'q': q, 'lhs': lhs, 'rel': rel, 'rhs': rhs or {'k': 'num', 'v': '0'}, 't': glob, 'studies': [c['s'] for c in sc],
         'via': 'eval' if len(sc) == 1 and g.chance(0.5) else 'parser'}
    if e['via'] == 'parser' and g.chance(0.6):
        e['parser'] = 'P'
    if reuse and m > 1:
        e['reuse'] = True
    e.update(kw)
    t('eval', sc[0]['s'], **e)
    return e


def online_eval(g, t, o, ms, store, n, s='S'):
    first = 1 if o['type'] in ('ar1', 'scaledar1') else 0
    sc = {'s': s, 'pars': [(x, [Fraction(v) for v in a]) for x, a in zip(o['names'], o['grids'])],
          'times': list(range(first, n)), 'online': True, 'last': not store,
          'hyper': [[(h['name'], [Fraction(x) for x in h['v']]) for h in flat_hp(m)] for m in ms]}
    query(g, t, [sc], maxsrc=2)


def natural_names(g, o):
    """names a user would choose"""
    names = {'gaussian': ['mean', 'std'], 'laplace': ['mu', 'b'], 'poisson': ['rate'], 'bernoulli': ['p'],
             'whitenoise': ['sigma'], 'ar1': ['rho', 'noise']}
    if o['type'] in names and g.chance(0.4):
        o['names'] = names[o['type']]
        o['pname'] = list(o['names'])
    return o


def c13_study(g, t, s, kind, maxn=4):
    o = g.om(types=['gaussian', 'poisson', 'whitenoise', 'bernoulli', 'laplace', 'ar1'], n=3 if g.chance(0.7) else 4)
    if s == 'S':
        natural_names(g, o)
    if g.chance(0.6):      # dyadic values
        for a in range(len(o['grids'])):
            lo, step = g.pick('0.25', '0.5', '1'), g.pick('0.25', '0.5', '1')
            v = g.grid(lo, step, len(o['grids'][a]))
            if o['type'] == 'bernoulli':
                v = [Fraction(i + 1, 8) for i in range(len(v))]
            o['grids'][a] = [f2s(x) for x in v]
        if o['prior']['kind'] == 'sympy':
            o['prior'] = {'kind': 'none'}
    mk = {'study': lambda o, ts: g.leaf(o, ['static', 'grw', 'independent', 'regime', 'changepoint'], ts),
          'hyper': lambda o, ts: g.hypertm(o, ts, maxc=6, minc=2), 'cp': lambda o, ts: g.cptm(o, ts, maxc=8)}[kind]
    S = Scene(g, t, s=s, kind=kind, o=o, lo=3, hi=maxn, mk=mk, tsk=g.pick('default', 'default', 'ints', 'float', 'uneven'))
    S.fit(g.pick('full', 'forward'))
    return S


def C13(g, k, deep):
    t = Trace()
    u = k % 8
    if u == 7:
        return c13_online(g, t)
    if u == 6:
        Ss = [c13_study(g, t, s, g.pick('study', 'study', 'hyper')) for s in ('S', 'S2')]
    else:
        Ss = [c13_study(g, t, 'S', ['study', 'study', 'hyper', 'cp', 'study', 'hyper'][u])]
    scs = [scope(S) for S in Ss]
    for sc, S in zip(scs, Ss):
        if S.kind != 'study' and g.combos(S.m, len(S.eff)) < 2:
            sc['hyper'] = []
    for i in range(g.r.randint(4, 8)):
        query(g, t, scs if len(scs) == 1 or g.chance(0.7) else [g.r.choice(scs)], maxsrc=2 if len(scs) > 1 else 3,
              reuse=(k % 10 == 3 and i == 2))
        if g.chance(0.15):
            bad_query(g, t, scs)
    return t


def bad_query(g, t, scs):
    c = g.r.choice(scs)
    n, v = g.r.choice(c['pars'])
    num = enumeral(g, g.pick(1, 2))
    e = {'rel': '>', 'rhs': num, 't': 'none', 'studies': [x['s'] for x in scs], 'via': 'parser'}
    w = g.pick('unknowntime', 'notime', 'unknownname', 'two', 'unknownt', 'suffix')
    par = lambda at: {'k': 'par', 'name': n, 'at': at}
    if w == 'unknowntime':
        at = f2s(max(c['times']) + 3)
        e.update(lhs=par(at), q='{}@{} > {}'.format(n, at, num['v']))
    elif w == 'notime':
        if c['last']:
            return
        e.update(lhs=par('none'), q='{} > {}'.format(n, num['v']))
    elif w in ('unknownname', 'suffix'):
        x = 'nosuchname' if w == 'unknownname' else n + '7'
        if any(x == y for d in scs for y, _ in d['pars']):
            return
        at = f2s(g.r.choice(c['times']))
        e.update(lhs={'k': 'par', 'name': x, 'at': at}, q='{}@{} > {}'.format(x, at, num['v']))
    elif w == 'two':
        at = f2s(g.r.choice(c['times']))
        e.update(lhs=par(at), rel='two', q='0 < {}@{} < {}'.format(n, at, num['v']))
    else:
        at = f2s(max(c['times']) + 2)
        e.update(lhs=par('none'), t=at, q='{} > {}'.format(n, num['v']))
    t('eval', scs[0]['s'], **e)


def c13_online(g, t):
    o = g.om(types=['gaussian', 'poisson', 'whitenoise', 'bernoulli', 'ar1'], n=3)
    n = g.r.randint(3, 5)
    data, dim = g.data(o, n)
    store, ms, names, hn = c10_setup(g, t, o, n, maxm=2)
    for i, _ in enumerate(steps(g, t, o, data, dim)):
        if i > 0 and g.chance(0.3):
            online_eval(g, t, o, ms, store, i + 1)
    for _ in range(4):
        online_eval(g, t, o, ms, store, n)
    return t


# -------------------------------------------------------------------------------------------------------- C14
def C14(g, k, deep):
    t = Trace()
    kind = ['study', 'hyper', 'cp', 'online'][k % 4]
    o = g.om(types=SMALL + ['scipy', 'sympy', 'numpy'], n=g.pick(3, 4))
    if o['prior']['kind'] == 'sympy' and g.chance(0.5):
        o['prior'] = {'kind': 'none'}
    if kind == 'online':
        return c14_online(g, t, o)
    mk = {'study': lambda o, ts: g.tm(o, ts, depth=2), 'hyper': lambda o, ts: g.hypertm(o, ts, maxc=6, minc=2),
          'cp': lambda o, ts: g.cptm(o, ts, maxc=12)}[kind]
    S = Scene(g, t, kind=kind, o=o, lo=3, hi=5, mk=mk)
    hn = S.hnames() if kind != 'study' else []
    fitted = g.chance(0.8)
    if fitted:
        S.fit(g.pick('full', 'full', 'forward', 'evidence'))
    if g.chance(0.4):
        t('badsave', path='f.bl')        # no file yet
        t('restore', 'X', path='f.bl')
    t('save', path='f.bl', via=g.pick('module', 'top'))
    rd = lambda s, j: [read_one(g, t, s, o, S.eff, hn, cp=kind == 'cp', pts=g.point_names(S.m)) for _ in range(j)]
    if fitted:
        rd('S', 1)
    if g.chance(0.5):     # the original goes on
        S.fit(g.pick('full', 'forward', 'evidence'))
        if g.chance(0.5):
            t('badsave', path='f.bl')
    t('restore', 'R', path='f.bl')
    if fitted:
        t('results', 'R')
        rd('R', 3)
        if g.chance(0.4) :
            query(g, t, [dict(scope(S, 'R'))], via='eval') if t_has_post(t) else None
    t('fit', 'R', mode=g.pick('full', 'forward', 'evidence'))
    rd('R', 2)
    rd('S', 1)
    if g.chance(0.4):      # save the copy, and overwrite
        t('save', 'R', path=g.pick('f.bl', 'g.bl'))
        t('restore', 'Q', path='f.bl')
        t('results', 'Q')
        rd('Q', 2)
    if g.chance(0.4):      # change the copy; the original is independent
        data, dim = g.data(o, S.n)
        t('load', 'R', data=data, dim=dim, hasts=S.hasts, ts=[f2s(x) for x in S.ts])
        t('fit', 'R', mode='full')
        S.fit('full')
        rd('S', 1)
    return t


def t_has_post(t):
    return [e for e in t.ev if e['c'] == 'fit'][-1]['mode'] != 'evidence'


def c14_online(g, t, o):
    n = g.r.randint(3, 6)
    data, dim = g.data(o, n)
    store, ms, names, hn = c10_setup(g, t, o, n)
    cut = g.r.randint(0, n - 1)
    for i, _ in enumerate(steps(g, t, o, data[:cut], dim)):
        pass
    t('save', path='f.bl')
    t('restore', 'R', path='f.bl')
    if g.chance(0.5):
        t('badsave', path='f.bl')
    for s in ('R', 'S') if g.chance(0.5) else ('S', 'R'):
        if cut:
            online_reads(g, t, o, cut - 1, store, 1, names=names, hnames=hn, s=s)
        for i, _ in enumerate(steps(g, t, o, data[cut:], dim, s=s)):
            if g.chance(0.3):
                online_reads(g, t, o, cut + i, store, 1, names=names, hnames=hn, s=s)
        online_reads(g, t, o, n - 1, store, 3, names=names, hnames=hn, s=s)
    if g.chance(0.5):
        t('restore', 'Q', path='f.bl')
        for _ in steps(g, t, o, data[cut:cut + 1], dim, s='Q'):
            pass
        online_reads(g, t, o, cut, store, 2, names=names, hnames=hn, s='Q')
    return t


# -------------------------------------------------------------------------------------------------------- C15
def C15(g, k, deep):
    t = Trace()
    g.tame = True
    for _ in range(100):
        o = g.om(types=['gaussian', 'poisson', 'whitenoise', 'gaussianmean', 'laplace', 'ar1'], n=g.pick(4, 5, 6), irregular=0)
        leaf = lambda: g.leaf(o, ['grw', 'grw', 'grw', 'regime', 'det', 'static', 'changepoint', 'notequal'], [1, 2, 3])
        u = g.r.random()
        n = g.r.randint(4, 8)
        if u < 0.35:
            m = leaf()
        elif u < 0.7:
            m = tm('combined', subs=[leaf() for _ in range(g.r.randint(2, 3))])
        else:
            ps = g.points(list(range(n)), g.r.randint(1, 2))
            sub = lambda: g.leaf(o, ['grw', 'regime', 'det', 'static'], [1, 2, 3])
            m = tm('serial', [hp(g.name('tb'), x, kind=g.pick('bp', 'cp')) for x in ps],
                   subs=[sub() if g.chance(0.7) else tm('combined', subs=[sub(), sub()]) for _ in range(len(ps) + 1)])
        names = flat_names(m)
        pts = g.point_names(m)
        free = [x for x in names if x not in pts]
        if free:
            break
    S = Scene(g, t, o=o, n=n, m=m, missing=0.05, tsk=g.pick('default', 'default', 'shift', 'uneven') if not pts else 'default')
    if g.chance(0.5):
        S.fit(g.pick('full', 'forward', 'evidence'))
    for _ in range(g.r.randint(1, 2)):
        if g.chance(0.15):
            t('optimize', names=g.pick(['nosuch'], [g.r.choice(free), 'nosuch']), all=names, mode='full', tol='1e-3')
            continue
        sel = g.pick([], [], g.r.sample(free, g.r.randint(1, len(free))), [g.r.choice(free)])
        t('optimize', names=sel, all=names, mode=g.pick('full', 'full', 'forward'), tol='1e-3', single=g.chance(0.5),
          opts={'maxiter': g.r.randint(6, 30), 'rhobeg': g.pick(0.9137, 0.2171, 0.0531)})
        for x in g.r.sample(names, min(2, len(names))):
            t('hpvalue', name=x)
        if g.chance(0.3):
            S.fit(g.pick('full', 'evidence'))
    return t


# -------------------------------------------------------------------------------------------------------- C16
def C16(g, k, deep):
    t = Trace()
    kind = ['study', 'hyper', 'cp', 'online', 'study', 'missing'][k % 6]
    if kind == 'missing':
        return c16_missing(g, t)
    if kind == 'online':
        return c16_online(g, t)
    o = g.om(types=SMALL + ['scipy', 'numpy'], n=g.pick(3, 4))
    mk = {'study': lambda o, ts: g.tm(o, ts, depth=1), 'hyper': lambda o, ts: g.hypertm(o, ts, maxc=6),
          'cp': lambda o, ts: g.cptm(o, ts, maxc=12)}[kind]
    S = Scene(g, t, kind=kind, o=o, lo=3, hi=5, mk=mk)
    if g.chance(0.5):
        S.fit(g.pick('full', 'forward', 'evidence'))
    for _ in range(g.r.randint(1, 3)):
        invalid(g, t, S)
        S.setom()
        S.settm()
        S.load()
        S.fit(g.pick('full', 'full', 'forward', 'evidence'))
        read_one(g, t, 'S', o, S.eff, S.hnames() if kind != 'study' else [])
        unknown_reads(g, t, S)
    return t


def unknown_reads(g, t, S):
    """read-outs of what does not exist"""
    o = S.o
    far = f2s(max(S.eff) + 5)
    w = g.r.randrange(7)
    if w == 0:
        t('pd', t=far, name=o['names'][0], density=True)
    elif w == 1:
        t('pd', t=f2s(S.eff[0]), name='nosuch', density=True)
    elif w == 2:
        t('pds', name='nosuch', density=False)
    elif w == 3:
        t('means', name='nosuch')
    elif w == 4 and S.kind != 'study':
        t('hpd', name='nosuch')
    elif w == 5 and o['type'] in ('gaussian', 'poisson', 'laplace', 'whitenoise', 'bernoulli'):
        t('simulate', t=far, x=support(g, o), density=True)
    elif w == 6 and S.kind != 'study' and S.hnames():
        t('jhpd', n1=S.hnames()[0], n2='nosuch')


def bad_tm(g, o, eff):
    """transition models that are rejected when they are made"""
    w = g.r.randrange(7)
    s = lambda: g.leaf(o, ['grw', 'static', 'regime'], eff)
    if w == 0:
        return tm('grw', [hp(g.name('x'), 0.3)])
    if w == 1:
        return tm('stable', [hp(g.name('x'), 0.6), hp(g.name('y'), 1.5)])
    if w == 2:
        return tm('det', [hp(g.name('x'), 0.5)], f='linear')
    if w == 3:
        a, b = sorted(g.r.sample(range(0, 9), 2))
        a, b = g.pick((b, a), (a, a))
        return tm('serial', [hp(g.name('tb'), a, kind='bp'), hp(g.name('tb'), b, kind=g.pick('bp', 'cp'))], subs=[s(), s(), s()])
    if w == 4:
        return tm('serial', [hp(g.name('tb'), 2, kind='bp')], subs=g.pick([s()], [s(), s(), s()]), grouped=True)
    if w == 5:
        return tm('combined', subs=[s(), tm('breakpoint', [hp(g.name('tb'), 2)])])
    return tm('det', [hp(g.name('x'), 0.5)], f=g.pick('badsignature', 'wrongpriors'), target=o['names'][0])


def invalid(g, t, S):
    import copy
    w = g.r.randrange(10)
    if w == 0:
        t('badload', what=g.pick('string', 'number', 'dict', 'tuple', 'none'))
    elif w == 1:
        t('badset', what=g.pick('string', 'number', 'none'))
        S.fit('full')      # still configured
    elif w == 2:
        t('badOM', what=g.pick('numpy-name', 'numpy-count', 'numpy-nofunction', 'scipy-name', 'scipy-nodist', 'sympy-name', 'sympy-nodist'))
    elif w in (3, 4):
        t('newTM', id='bad', tm=bad_tm(g, S.o, S.eff))
    elif w == 5:           # duplicate names
        n = g.name('dup')
        lc = g.lattice(S.o, 0)
        t('newTM', id='dup', tm=tm('combined', subs=[tm('grw', [hp(n, g.sigma(lc))], target=S.o['names'][0]),
                                                     tm('regime', [hp(n, -2)])]))
        t('setTM', id='dup')
        S.fit(g.pick('full', 'forward', 'evidence'))
    elif w == 6:           # prior with the wrong shape
        q = copy.deepcopy(S.o)
        shape = [len(a) for a in q['grids']]
        i = g.r.randrange(len(shape))
        shape[i] += g.pick(-1, 1, 2)
        if shape[i] == 1:      # (would be broadcast)
            shape[i] = 2 + len(q['grids'][i])
        q['prior'] = g.prior_array(shape)
        t('setOM', om=q)
        S.fit(g.pick('full', 'forward', 'evidence'))
    elif w == 7 and S.kind != 'study':    # hyper-prior with the wrong length
        lc = g.lattice(S.o, 0)
        v = [g.sigma(lc), g.sigma(lc), g.sigma(lc)]
        if S.kind == 'cp':
            m = tm('changepoint', [hp(g.name('t'), [0, 1, 2], scalar=False, prior={'kind': 'array', 'v': g.pick(['1', '2'], ['1', '2', '1', '1'])})])
        else:
            m = tm('grw', [hp(g.name('s'), v, scalar=False, prior={'kind': 'array', 'v': g.pick(['1', '2'], ['1', '2', '1', '1'])})],
                   target=S.o['names'][0])
        t('newTM', id='hb', tm=m)
        t('setTM', id='hb')
        S.fit(g.pick('full', 'evidence'))
    elif w == 8 and S.kind == 'cp':       # no change-points; change- and break-points; nested serial models
        m = g.pick(tm('grw', [hp(g.name('s'), [g.sigma(g.lattice(S.o, 0)), g.sigma(g.lattice(S.o, 0))], scalar=False)], target=S.o['names'][0]),
                   tm('combined', subs=[tm('changepoint', [hp(g.name('t'), [], scalar=False, all_=True)]),
                                        tm('serial', [hp(g.name('t'), [0, 1], scalar=False, kind='bp')], subs=[STATIC, tm('independent')])]))
        t('newTM', id='cb', tm=m)
        t('setTM', id='cb')
        S.fit(g.pick('full', 'evidence'))
    elif w == 9 and S.kind == 'hyper':    # (partly) coinciding change-points
        m = tm('combined', subs=[tm('changepoint', [hp(g.name('t'), [0, 1], scalar=False)]), tm('changepoint', [hp(g.name('t'), [1, 2], scalar=False)])])
        t('newTM', id='eq', tm=m)
        t('setTM', id='eq')
        S.fit(g.pick('full', 'evidence'))
    else:
        unknown_reads(g, t, S)


def c16_missing(g, t):
    """fits before everything is set"""
    o = g.om(types=SMALL, n=3)
    kind = g.pick('study', 'hyper', 'cp', 'study')
    n = g.r.randint(3, 5)
    data, dim = g.data(o, n)
    hasts, ts = g.timestamps(n)
    eff = times_of(o, g.effective(n, hasts, ts))
    m = {'study': lambda: g.tm(o, eff, depth=1), 'hyper': lambda: g.hypertm(o, eff, maxc=5), 'cp': lambda: g.cptm(o, eff, maxc=8)}[kind]()
    t('newTM', id='T', tm=m)
    t('newStudy', kind=kind, store=False)
    todo = [('load', dict(data=data, dim=dim, hasts=hasts, ts=[f2s(x) for x in ts])), ('setOM', dict(om=o)), ('setTM', dict(id='T'))]
    g.r.shuffle(todo)
    for c, e in todo:
        if g.chance(0.7):
            t('fit', mode=g.pick('full', 'forward', 'evidence'))
        if g.chance(0.3) and kind == 'study':
            t('optimize', names=[], all=[], mode='full', tol='1')
        t(c, **e)
    w = g.pick('pd', 'pds', 'means', 'simulate', '')
    if w == 'pd':
        t('pd', t=f2s(eff[0]), name=o['names'][0], density=True)
    elif w in ('pds', 'means'):
        t(w, name=o['names'][0], density=True)
    elif w == 'simulate' and o['type'] not in ('ar1', 'gaussianmean'):
        t('simulate', t='none', x=support(g, o), density=True)
    t('fit', mode=g.pick('full', 'forward', 'evidence'))
    if g.chance(0.5):
        t('fit', mode='evidence')
        t('pd', t=f2s(eff[0]), name=o['names'][0], density=True)
    t('fit', mode='full')
    return t


def c16_online(g, t):
    o = g.om(types=SMALL, n=3)
    n = g.r.randint(3, 5)
    data, dim = g.data(o, n)
    store = g.chance(0.5)
    t('newStudy', kind='online', store=store)
    e = {'x': data[0], 'dim': dim}
    if g.chance(0.5):
        t('step', **e)            # no models
    ms = [g.hypertm(o, range(n), maxc=3) if g.chance(0.5) else g.leaf(o, ['static', 'grw'], range(n)) for _ in range(2)]
    late = g.chance(0.4)
    if not late:
        t('setOM', om=o)
    for i, m in enumerate(ms):
        t('newTM', id='T{}'.format(i), tm=m)
        t('addTM', name='m{}'.format(i), id='T{}'.format(i))
    if late:
        t('step', **e)            # no observation model
        t('setOM', om=o)
    if g.chance(0.5):
        t('tmprior', v=g.pick(['1'], ['1', '2', '1']))
    if g.chance(0.3):
        t('tmprior', v=['1', '3'])
    if g.chance(0.3):
        t('badset', what='string')
    if g.chance(0.3):
        t('fit', mode='full')
    for i, _ in enumerate(steps(g, t, o, data, dim)):
        if i > 0 and g.chance(0.5):
            c = g.pick('cpd', 'cpm', 'chpd', 'ctmp')
            t(c, name='nosuch', density=True, local=False)
        if i > 0 and not store and g.chance(0.3):
            t(*g.pick(('pds',), ('means',)), name=o['names'][0], density=True)
    online_reads(g, t, o, n - 1, store, 3, names=['m0', 'm1'], hnames=[x for m in ms for x in flat_names(m)])
    return t


# -------------------------------------------------------------------------------------------------------- C17
def C17(g, k, deep):
    t = Trace()
    kind = ['study', 'study', 'hyper', 'cp', 'online'][k % 5]
    o = g.om(irregular=0.2) if kind == 'study' else g.om(types=SMALL + ['numpy'], n=g.pick(3, 4), irregular=0.2)
    if kind == 'online':
        n = g.r.randint(3, 6)
        data, dim = g.data(o, n)
        store, ms, names, hn = c10_setup(g, t, o, n, store=g.chance(0.85), maxm=2)
        for i, _ in enumerate(steps(g, t, o, data, dim)):
            if g.chance(0.3):
                online_reads(g, t, o, i, store, 1, names=names, hnames=hn, tms=g.chance(0.3))
        online_reads(g, t, o, n - 1, store, 6, tms=False)
        online_reads(g, t, o, n - 1, store, 3, names=names, hnames=hn)
        return t
    mk = {'study': lambda o, ts: g.tm(o, ts, depth=1), 'hyper': lambda o, ts: g.hypertm(o, ts, maxc=5), 'cp': lambda o, ts: g.cptm(o, ts, maxc=8)}[kind]
    S = Scene(g, t, kind=kind, o=o, lo=3 if kind == 'cp' else 1, hi=5, mk=mk)
    S.fit(g.pick('full', 'full', 'forward'))
    for name in o['names']:
        x = f2s(g.r.choice(S.eff))
        for density in (True, False):
            t('pd', t=x, name=name, density=density, alias=g.chance(0.5))
            t('pd', t='avg', name=name, density=density, alias=g.chance(0.5))
        t('pds', name=name, density=g.chance(0.5), alias=g.chance(0.5))
        t('means', name=name)
    for _ in range(2):
        if o['type'] not in ('ar1', 'scaledar1', 'gaussianmean') and not (o['type'] == 'numpy' and o['f'] == 'pair'):
            simulate(g, t, S)
    if kind != 'study':
        hp_reads(g, t, S, 2)
    return t


# -------------------------------------------------------------------------------------------------------- C18
def timed(m):
    return m['type'] in ('changepoint', 'serial', 'det') or any(timed(s) for s in m['subs'])


def shifted(m, d):
    """the same model with all times moved by d"""
    import copy
    m = copy.deepcopy(m)

    def walk(x):
        if x['type'] in ('changepoint', 'serial'):
            for h in x['hp']:
                h['v'] = [f2s(float(v) + d) for v in h['v']]
                if float(d).is_integer() and all(float(v).is_integer() for v in h['v']):
                    h['v'] = [str(int(float(v))) for v in h['v']]
                if h['prior']['kind'] == 'sympy':      # need not cover the new times
                    h['prior'] = NOPRIOR
        for s in x['subs']:
            walk(s)
    walk(m)
    return m


def C18(g, k, deep):
    t = Trace()
    kind = ['study', 'study', 'hyper', 'cp', 'study', 'cp'][k % 6]
    o = g.om(types=['gaussian', 'poisson', 'ar1', 'scaledar1', 'whitenoise', 'gaussianmean', 'ar1'], n=g.pick(3, 4))
    kinds = ['static', 'grw', 'regime', 'independent', 'changepoint', 'changepoint']

    def study_tm(o, ts):
        u = g.r.random()
        if u < 0.45:
            return g.leaf(o, kinds, ts)
        if u < 0.6:
            return tm('combined', subs=[g.leaf(o, kinds, ts) for _ in range(2)])
        p = g.points(ts, g.r.randint(1, 2)) or [ts[0]]
        sub = ['static', 'grw', 'regime', 'independent', 'det']
        return tm('serial', [hp(g.name('tb'), x, kind=g.pick('bp', 'cp')) for x in p],
                  subs=[g.leaf(o, sub, [x - ts[0] for x in ts]) for _ in range(len(p) + 1)])
    mk = {'study': study_tm, 'hyper': lambda o, ts: g.hypertm(o, ts, maxc=6), 'cp': lambda o, ts: g.cptm(o, ts, maxc=15)}[kind]
    tsk = ['ints', 'shift', 'uneven', 'float', 'neg', 'default', 'mismatch', 'uneven'][(k//6) % 8]
    S = Scene(g, t, kind=kind, o=o, lo=3, hi=6, mk=mk, tsk=tsk)
    S.fit(g.pick('full', 'full', 'forward', 'evidence'))
    hn = S.hnames() if kind != 'study' else []

    def reads(eff):
        for x in g.r.sample(list(eff), min(2, len(eff))):
            t('pd', t=f2s(x), name=g.r.choice(o['names']), density=False, alias=g.chance(0.5))
        if hn:
            hp_reads(g, t, S, 2)
        if kind == 'cp' and len(g.point_names(S.m)) > 1:
            a, b = g.r.sample(g.point_names(S.m), 2)
            t('dd', n1=a, n2=b)
        if g.chance(0.4):
            sc = scope(S)
            sc['times'] = list(eff)
            sc['hyper'] = []
            query(g, t, [sc], maxsrc=2)
        if g.chance(0.3):
            t('pd', t=f2s(max(eff) + 0.5), name=o['names'][0], density=True)
            if o['type'] in ('ar1', 'scaledar1') and S.hasts and len(S.ts) == S.n:
                t('pd', t=f2s(S.ts[0]), name=o['names'][0], density=True)
    reads(S.eff)
    # all times shifted
    far = all(h['prior']['kind'] in ('none', 'array') for h in flat_hp(S.m) if h['name'] in g.point_names(S.m))
    d = g.pick(1, -3, 100, 1850, 0.5, -0.25) if far else g.pick(1, -3, 0.5, -0.25)   # prior functions may vanish far away
    full = g.effective(S.n, S.hasts, S.ts)
    m2 = shifted(S.m, d)
    t('newTM', id='T2', tm=m2)
    t('setTM', id='T2')
    S.hasts, S.ts = True, [x + d for x in full]
    S.eff = times_of(o, S.ts)
    S.m = m2
    S.load()
    S.fit(g.pick('full', 'full', 'forward', 'evidence'))
    reads(S.eff)
    if g.chance(0.3):      # wrong number of time stamps, after right ones
        S.ts = S.ts[:-1] if g.chance(0.5) else S.ts + [max(S.ts) + 1]
        S.load()
        S.eff = times_of(o, list(range(S.n)))
        S.fit('full')
        reads(S.eff)
    return t


# -------------------------------------------------------------------------------------------------------- C19
def hard_om(g):
    """observation models that rule out some data"""
    u = g.r.randrange(5)
    n = g.r.randint(3, 5)
    if u == 0:
        return om('numpy', [g.name('a')], [g.grid('0', '1', n)], f='table', prior=NOPRIOR), lambda: f2s(g.dec(0.1, n + 0.3, 2)), '-1'
    if u == 1:
        return om('scipy', ['loc'], [g.grid('0', '1', n)], dist='uniform', fixed={'scale': 1.4}, prior=NOPRIOR), \
            lambda: f2s(g.dec(0.1, n + 0.2, 2)), g.pick('-3', '25.5')
    if u == 2:
        return om('bernoulli', [g.name('p')], [[Fraction(i, n - 1) for i in range(n)]] if g.chance(0.5) else [[Fraction(0), Fraction(1)]],
                  prior=NOPRIOR), lambda: str(g.r.randint(0, 1)), '1'
    if u == 3:
        return om('scipy', ['loc'], [g.grid('0', '0.5', n)], dist='expon', fixed={'scale': 1.25}, prior=NOPRIOR), \
            lambda: f2s(g.dec(-0.1, 2, 2)), '-2.25'
    return om('poisson', [g.name('rate')], [g.grid('0', '1', n)], prior={'kind': 'array', 'v': g.pick(['1'] + ['0']*(n - 1), ['1']*n), 'shape': [n]}), \
        lambda: str(g.pick(0, 0, 0, 2)), '3'


def C19(g, k, deep):
    t = Trace()
    kind = ['study', 'study', 'hyper', 'cp', 'hyper'][k % 5]
    o, one, never = hard_om(g)
    n = g.r.randint(2, 6) if kind != 'cp' else g.r.randint(3, 6)
    data = [one() for _ in range(n)]
    if g.chance(0.5):
        data[g.r.randrange(n)] = never
    if g.chance(0.15):
        data[g.r.randrange(n)] = 'nan'
    times = list(range(n))
    jump = ['static', 'static', 'regime', 'changepoint', 'independent', 'static']
    if kind == 'study':
        m = g.leaf(o, jump, times)
    elif kind == 'hyper':
        m = g.pick(tm('grw', [hp(g.name('s'), [0, 0.9, 2.1][:g.r.randint(2, 3)], scalar=False)], target=o['names'][0]),
                   tm('changepoint', [hp(g.name('t'), times[:-1] or [0], scalar=False)]),
                   tm('serial', [hp(g.name('t'), times[:-1] or [0], scalar=False, kind=g.pick('bp', 'cp'))], subs=[STATIC, STATIC]),
                   tm('regime', [hp(g.name('p'), [-2, -9], scalar=False)]))
    else:
        m = g.pick(tm('changepoint', [hp(g.name('t'), [], scalar=False, all_=True)]),
                   tm('combined', subs=[tm('changepoint', [hp(g.name('t'), [], scalar=False, all_=True)]) for _ in range(2)]),
                   tm('serial', [hp(g.name('t'), [], scalar=False, all_=True, kind='cp')], subs=[STATIC, STATIC]))
    S = Scene(g, t, kind=kind, o=o, n=n, data=(data, 0), hasts=False, ts=times, m=m)
    modes = ['full', 'forward', 'evidence']
    kw = {}
    if kind != 'study' and g.chance(0.3):
        kw = {'jobs': 3, 'pool': 'fake', 'order': permutation(g, 3)}
    S.fit(g.r.choice(modes), **kw)
    hn = S.hnames() if kind != 'study' else []
    if hn:
        hp_reads(g, t, S, 2)
    if kind == 'cp' and len(hn) > 1:
        t('dd', n1=hn[0], n2=hn[1])
    if g.chance(0.6):
        read_one(g, t, 'S', o, S.eff, hn)
    # possible data
    lo, hi = g.axis_range(o, 0)
    S.load(data=[f2s(g.dec(hi, hi + 0.35, 2)) if o['dist'] in ('uniform', 'expon') or o['f'] == 'table' else ('0' if o['type'] == 'poisson' else g.pick('0', '0', '1'))
                 for _ in range(n)])
    S.fit(g.r.choice(modes))
    if g.chance(0.5):
        read_one(g, t, 'S', o, S.eff, hn)
    if g.chance(0.5):
        S.load()
        S.fit(g.r.choice(modes))
        read_one(g, t, 'S', o, S.eff, hn)
    return t


FAMILIES = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}
