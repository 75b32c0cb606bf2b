#!/usr/bin/env python3
"""Decides one property: check.py ID [--replay FILE]

1. TLC explores the model checking modules that establish the property on the specification (MODELS below);
2. scenarios of the property's family (families.py) are executed on the library in /repo, and TLC judges every recorded
   call against the specification (module Trace).

Exit 0: nothing found; 1: violation (with a replay file); 2: the machinery failed."""
import collections, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from engine import Engine, Machinery, VERIF, CORES
from gen import Gen
from families import FAMILIES
from models import MODELS, run_model

QUICK = 240                       # scenarios of a quick check
QUICK_N = {'C01': 240}
BUDGET = {'quick': 300, 'thorough': 1500}   # seconds after which no further batch is started


class Recorded(object):
    """a trace read from a replay file"""
    def __init__(self, ev):
        self.begin, self.ev = ev[0], [{k: v for k, v in e.items() if k != 'out'} for e in ev[1:]]

    def events(self, n):
        return [dict(self.begin, n=n)] + self.ev


def known():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)['known']


def devices(message):
    """names of the known deviations in a KNOWN verdict"""
    i, j = message.index('{'), message.index('}')
    return [x.strip().strip('"') for x in message[i + 1:j].split(',')]


def write(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1)
    os.replace(tmp, path)


def confirm(engine, trace, verdict):
    """re-executes a rejected trace on its own; False if the rejection was an accident of the machine"""
    if 'process ended' not in verdict[4] and 'TimeoutError' not in verdict[4]:
        return True
    r = engine.check_traces([trace], shards=1)
    return any(v[0] == 'REJECT' for v in r['verdicts'])


def main():
    pid = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    engine = Engine()
    try:
        if replay:
            with open(replay) as f:
                saved = json.load(f)
            if 'events' in saved:
                r = engine.check_traces([Recorded(saved['events'])], shards=1)
                bad = [v for v in r['verdicts'] if v[0] == 'REJECT']
                print('\n'.join(str(v) for v in r['verdicts']) or 'accepted')
            else:
                bad = run_model(engine, saved['model'], tier)['violations']
                print('\n'.join(bad) or 'no error')
            if bad:
                print('VIOLATION property={} replay={}'.format(pid, replay))
            return 1 if bad else 0

        violations, lines, seen = [], [], collections.Counter()
        states = transitions = 0
        models = []
        for m in MODELS.get(pid, []):
            r = run_model(engine, m, tier)
            states += r['distinct']
            transitions += r['generated']
            models.append({'module': m['module'], 'constants': r['constants'], 'states': r['distinct'],
                           'transitions': r['generated'], 'complete': True, 'wall_s': round(r['wall'], 1)})
            for x in r['violations']:
                path = os.path.join(VERIF, 'evidence', 'replay', '{}-model-{}.json'.format(pid, m['module']))
                write(path, {'property': pid, 'model': m, 'message': x})
                violations.append((path, x))

        allowed = {k['deviation'] for k in known() if pid in k['properties']}
        traces_n = calls = 0
        samples, errors, kinds, calls_by = [], collections.Counter(), collections.Counter(), collections.Counter()
        batch, batches = 0, (1 if tier == 'quick' else 10**6)
        while batch < batches and not violations and (batch == 0 or time.time() - t0 < BUDGET[tier]):
            n = QUICK_N.get(pid, QUICK)
            deep = tier == 'thorough' and batch % 2 == 1
            first = batch*n
            traces = [FAMILIES[pid](Gen('{}-{}-{}'.format(pid, seed, i)), i, deep) for i in range(first, first + n)]
            r = engine.check_traces(traces)
            traces_n += r['traces']
            calls += r['calls']
            states += r['states']
            transitions += r['transitions']
            for e in r['events']:
                if e['c'] != 'begin':
                    calls_by[e['c']] += 1
                    errors[e['out']['err'] or 'ok'] += 1
                if e['c'] == 'newTM':
                    kinds[e['tm']['type']] += 1
                if e['c'] == 'setOM':
                    kinds[e['om']['type']] += 1
            if not samples:
                samples = [traces[i].events(i) for i in range(min(2, len(traces)))]
            rejected = set()
            for v in r['verdicts']:
                if v[0] == 'KNOWN':
                    extra = [d for d in devices(v[4]) if d not in allowed]
                    if not extra:
                        seen.update(devices(v[4]))
                        continue
                if v[1] in rejected:
                    continue
                rejected.add(v[1])
                tr = traces[v[1]]
                if not confirm(engine, tr, v):
                    continue
                if len(violations) < 5:
                    path = os.path.join(VERIF, 'evidence', 'replay', '{}-{}-{}.json'.format(pid, seed, first + v[1]))
                    rec, on = [], False
                    for e in r['events']:
                        if e['c'] == 'begin':
                            on = e['n'] == v[1]
                        if on:
                            rec.append(e)
                    write(path, {'property': pid, 'call': v[2], 'name': v[3], 'message': v[4], 'events': rec})
                violations.append((path, 'call {} ({}): {}'.format(v[2], v[3], v[4])))
            batch += 1
        for k in known():
            if k['deviation'] in seen and pid in k['properties']:
                print('KNOWN-FINDING: property={} {} ({} scenarios)'.format(pid, k['what'], seen[k['deviation']]))
        write(os.path.join(VERIF, 'evidence', pid + '.json'),
              {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
               'coverage': {'states': states, 'transitions': transitions, 'traces_validated_against_impl': traces_n,
                            'calls_validated_against_impl': calls, 'calls_by_kind': dict(calls_by),
                            'outcomes': dict(errors), 'models_exercised': dict(kinds), 'model_checking_runs': models,
                            'known_deviations_observed': dict(seen), 'samples': samples},
               'assumptions': ['numbers agree up to 1e-6 relative and 1e-9 absolute error unless the event says otherwise',
                               'scenarios are generated from VERIF_SEED; absence of rejections is evidence for the sampled inputs only'],
               'wall_s': round(time.time() - t0, 1), 'violations': len(violations)})
        for path, x in violations[:5]:
            print('  {}: {}'.format(path, x[:600]))
            print('VIOLATION property={} replay={}'.format(pid, path))
        print('{}: {} scenarios, {} calls, {} states, {:.0f} s'.format(pid, traces_n, calls, states, time.time() - t0))
        return 1 if violations else 0
    except Machinery as x:
        print('MACHINERY: {}'.format(x))
        return 2
    finally:
        engine.close()


if __name__ == '__main__':
    sys.exit(main())
