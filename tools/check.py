#!/usr/bin/env python3
"""check.py Cxx [--thorough] | --setup | --replay FILE

Decides one property: TLC checks the specification's instances, the behaviours
they generate are replayed in the real code, and everything the real code
returned (for those and for generated and real recordings) is validated by TLC
against the reader specification."""
import json, os, random, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
from vlib import *

PRINTS = ['prints']
FRAGS = ['frags']
FLAGS = ['flags']
PINGS = ['pings']
APIS = {
    'C01': ['all'], 'C02': ['all'],
    'C03': ['prints', 'frags', 'flags', 'pings', 'demo_dur'],
    'C04': ['prints'], 'C05': ['frags'], 'C06': ['frags'], 'C07': ['flags'], 'C08': ['pings'],
    'C09': ['countdown', 'demo_dur'],
    'C10': ['match_dur', 'match_seek', 'match_ktx'],
    'C11': ['clientinfo', 'clientinfo_strings', 'clients'],
    'C12': ['player_clients', 'spectator_clients', 'player_names', 'spectator_names', 'team_names', 'has_bot',
            'has_human'],
    'C13': ['players', 'players_parsing', 'players_ktx'],
    'C14': ['teams', 'teams_ktx'],
    'C15': ['ktx_string', 'ktx_v3', 'server'],
    'C16': ['serverinfo_string', 'serverinfo', 'filename'],
    'C17': ['valid', 'has_clients', 'has_end'],
    'C18': ['aborted', 'paused', 'has_end'],
    'C19': ['timestamp', 'ts_epoch', 'matchdate', 'matchdate_string'],
    'C20': ['all'],
}
# results that the expectation for other results is relative to
NEEDS = {'C12': ['ktx_v3'], 'C13': ['ktx_v3'], 'C14': ['ktx_v3'], 'C11': [], 'C15': []}


class Enough(Exception):
    """the property is violated: no need to look further"""


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == 'thorough'
        self.t0 = time.time()
        self.runner = build_runner()
        self.w = Work(prop)
        self.states = self.transitions = self.traces = 0
        self.models, self.samples, self.log, self.violations = {}, [], {}, []
        self.rng = random.Random('%s/%s' % (prop, seed))
        self.exhaustive = {}

    # ------------------------------------------------------------ models
    def model(self, name, env=None, simulate=None, keep=6000, label=None, timeout=800, cfg=None):
        """TLC on an instance of the specification; returns what it exported.
        A violated invariant is a fault of the specification, not of the code."""
        exp = self.w.path('export')
        if os.path.exists(exp):
            os.remove(exp)
        e = {'TIER': self.tier, 'EXPORT': exp if keep else '', 'MODE': '2on2', 'LAYOUT': 'users', 'WHAT': '', 'VERIF_SEED': self.seed}
        e.update(env or {})
        t = time.time()
        if simulate:
            gen_ = distinct = self.simulated(name, e, simulate, exp, timeout, cfg)
        else:
            code, out = tlc(name, cfg=cfg and cfg + '.cfg', env=e, heap='8g', work=self.w, timeout=timeout)
            if code != 0 or 'Error:' in out:
                raise ToolError('TLC on %s failed (%d):\n%s' % (name, code, out[-3000:]))
            gen_, distinct = tlc_stats(out)
        if not distinct:
            raise ToolError('TLC on %s reported no states' % name)
        self.states += distinct
        self.transitions += gen_
        rows = []
        if os.path.exists(exp):
            with open(exp) as f:
                lines = f.read().split('\n')
            lines = sorted({l for l in lines if l})
            if len(lines) > keep:
                self.rng.shuffle(lines)
                lines = lines[:keep]
                full = False
            else:
                full = True
            for l in lines:
                v = json.loads(l)
                v = json.loads(v) if isinstance(v, str) else v
                if isinstance(v, dict):
                    v['d'] = bytes(v['d'])
                rows.append(v)
        else:
            full = False
        self.models[label or name] = {'states': distinct, 'generated': gen_, 'exported': len(rows), 'all_exported': full,
                                      's': round(time.time() - t, 1)}
        return rows

    def simulated(self, name, env, n, exp, timeout, cfg=None):
        """n random behaviours, by several TLC processes with seeds of their own"""
        from concurrent.futures import ThreadPoolExecutor
        procs = min(CORES, max(1, n // 5))

        def one(i):
            m = n // procs + (i < n % procs)
            x = '%s.%d' % (exp, i) if env['EXPORT'] else ''
            opts = ['-simulate', 'num=%d' % m, '-depth', '220', '-seed', str(self.seed * 1000 + i)]
            return x, tlc(name, cfg=cfg and cfg + '.cfg', env=dict(env, EXPORT=x), opts=opts, workers=1, heap='2g', work=self.w, timeout=timeout,
                          meta='states-%d' % i)
        total = 0
        with ThreadPoolExecutor(procs) as ex:
            for x, (code, out) in ex.map(one, range(procs)):
                if code != 0 or 'Error:' in out:
                    raise ToolError('TLC on %s failed (%d):\n%s' % (name, code, out[-3000:]))
                m = re.findall(r'number of states generated: ([\d,]+)', out)
                total += int(m[-1].replace(',', ''))
                if x and os.path.exists(x):
                    with open(exp, 'a') as f, open(x) as g:
                        f.write(g.read())
                    os.remove(x)
        return total

    # ------------------------------------------------------------ the code
    def judge(self, api):
        a = APIS[self.prop]
        return a == ['all'] or api in a or api == {'C13': 'players_sorted', 'C14': 'team'}.get(self.prop)

    def validate(self, label, rows, kind='call', apis=None, chunk_bytes=14_000_000):
        """rows: {'d': bytes, 'know'?}; or {'players': [...]}.  Runs the calls in
        the real code and has TLC validate the results."""
        rows = [r if isinstance(r, dict) else {'d': bytes(r)} for r in rows]
        if not rows:
            return
        mine = apis or APIS[self.prop]
        ask = mine if mine == ['all'] else sorted(set(mine) | set(NEEDS.get(self.prop, [])))
        t = time.time()
        done = 0
        while done < len(rows):
            part, size = [], 0
            while done < len(rows) and (not part or size + len(rows[done].get('d', b'')) < chunk_bytes):
                size += len(rows[done].get('d', b''))
                part.append(rows[done])
                done += 1
            recs = []
            for i, x in enumerate(part):
                if 'players' in x:
                    recs.append({'id': i, 'players': x['players'], 'apis': ['teams', 'players_sorted', 'team']})
                elif 'runs' in x:
                    recs.append({'id': i, 'runs': [[u['b'].hex(), u['n']] for u in x['runs']]})
                elif 'gap' in x:
                    recs.append({'id': i, 'runs': gen.gap_runs(x)})
                else:
                    recs.append({'id': i, 'hex': x['d'].hex()})
            res = run_runner(self.runner, self.w, recs, ask)
            bases, ev, nb = [], [], {}
            for i, x in enumerate(part):
                if i not in res:
                    continue
                dead = [a for a in res[i] if 'deadline' in res[i][a].get('panic', '') or 'process died' in res[i][a].get('panic', '')]
                if dead:       # nothing else was called on this input
                    if self.judge(dead[0]) or kind == 'joint':
                        self.violation(label, dead[0], x, res[i], x_kind=x.get('kind', kind), ask=ask)
                    continue
                if 'players' in x:
                    ev.append({'id': i, 'kind': 'returns' if kind == 'returns' else 'players', 'players': x['players'], 'r': res[i]})
                    continue
                if 'runs' in x:
                    ev.append({'id': i, 'kind': 'runs', 'runs': [{'b': list(u['b']), 'n': u['n']} for u in x['runs']], 'r': res[i]})
                    continue
                src = x.get('of', x['d'])
                if id(src) not in nb:
                    bases.append(src)
                    nb[id(src)] = len(bases)
                more = {'know': x['know']} if 'know' in x else {}
                if x.get('kind', kind) == 'torn':
                    e = event(i, nb[id(src)], res[i], cut=len(x['d']), kind='torn', **more)
                else:
                    e = event(i, nb[id(src)], res[i], kind=x.get('kind', kind), **more)
                ev.append(e)
            if not ev:
                self.enough()
                continue
            c = conform(self.w, bases, ev, heap='12g')
            self.traces += c['events']
            for i, names in c['rejects'].items():
                for api in names:
                    if kind == 'joint' or self.judge(api):
                        self.violation(label, api, part[i], res[i], x_kind=part[i].get('kind', kind), ask=ask)
            self.enough()
            if part and len(self.samples) < 6:
                k = self.rng.choice(sorted(res))
                self.samples.append(self.sample(label, part[k], res[k], mine))
        e = self.log.setdefault(label, {'recordings': 0, 's': 0})
        e['recordings'] += len(rows)
        e['s'] = round(e['s'] + time.time() - t, 1)

    def sample(self, label, row, r, mine):
        s = {'source': label}
        if 'players' in row:
            s['players'] = row['players']
        elif 'runs' in row:
            s['runs'] = [[u['b'][:40].hex(), u['n']] for u in row['runs']]
        else:
            s['bytes'] = len(row['d'])
            s['head'] = row['d'][:80].hex()
        k = [a for a in r if a in mine or mine == ['all']]
        if k:
            a = self.rng.choice(sorted(k))
            v = json.dumps(r[a])
            s['call'], s['returned'] = a, v if len(v) < 300 else v[:300] + '...'
        return s

    def enough(self):
        if self.violations:
            raise Enough()

    def violation(self, label, api, row, r, x_kind='call', ask=(), what=None):
        self.violations.append(api)
        n = len(self.violations)
        if n > 5:
            return
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s-%d.json' % (self.prop, self.seed, n))
        rec = {'property': self.prop, 'source': label, 'api': api, 'kind': x_kind, 'apis': list(ask)}
        for k in ('know', 'players', 'call', 'values', 'job'):
            if k in row:
                rec[k] = row[k]
        if 'd' in row:
            rec['hex'] = row['d'].hex()
        if 'runs' in row:
            rec['runs'] = [[u['b'].hex(), u['n']] for u in row['runs']]
        if 'gap' in row:
            rec['runs'], rec['intact'] = gen.gap_runs(row), rec.pop('hex')
        if 'of' in row:
            rec['intact'] = row['of'].hex()
        rec['returned'] = r.get(api, r)
        with open(p, 'w') as f:
            json.dump(rec, f)
        print('%s: %s returned %s%s' % (label, api, json.dumps(r.get(api, '-'))[:300], ' - ' + what if what else ''))
        print('VIOLATION property=%s replay=%s' % (self.prop, p), flush=True)

    # ------------------------------------------------------------ inputs
    def fam(self, name, n):
        self.validate('generated: ' + name, gen.family(name, self.seed, n * (8 if self.deep else 1)))

    def special(self, *names):
        for n in names:
            rows = getattr(gen, n)(random.Random('%s-%s' % (n, self.seed)))
            self.validate('generated: ' + n, rows)

    def mutants(self, fams, n):
        r = random.Random('mut-%s-%s' % (self.prop, self.seed))
        rows = []
        n *= 8 if self.deep else 1
        for f in fams:
            rows += [{'d': gen.mutate(r, x['d'])} for x in gen.family(f, 'm%s' % self.seed, n)]
        self.validate('damaged recordings', rows)

    def stretched(self, fams, n=60, far=2, kind='call'):
        """recordings with a long gap in them (MC_Stretch)"""
        if self.deep or self.prop in ('C18', 'C20'):
            self.model('MC_Stretch', keep=0)
        n, far = (n * 8, far * 4) if self.deep else (n, far)
        r = random.Random('gap-%s-%s' % (self.prop, self.seed))
        rows = [gen.stretch(r, x) for i, f in enumerate(fams) for x in gen.family(f, 'gap%d-%s' % (i, self.seed), n)]
        rows += [gen.stretch(r, x, 1 << gen.pick(r, [20, 22, 24])) for f in fams for x in gen.family(f, 'far-%s' % self.seed, far)]
        self.validate('generated: long gaps', rows, kind=kind)

    def real(self, prefix=60000, full=0):
        rows = []
        for i, p in enumerate(gen.REAL):
            d = open(p, 'rb').read()
            rows.append({'d': d if self.deep or i in self.pick_real(full) else d[:prefix]})
        self.validate('real demos', rows)

    def pick_real(self, n):
        small = [i for i, p in enumerate(gen.REAL) if os.path.getsize(p) < 1_000_000]
        return set(random.Random('real-%s' % self.seed).sample(small, min(n, len(small))))

    # ------------------------------------------------------------ outcome
    def finish(self, assumptions=()):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples or ['none'], 'instances': self.models, 'inputs': self.log}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.w.done()
        if self.violations:
            print('%s: %d violations' % (self.prop, len(self.violations)))
            return 1
        print('%s held: %d states of the specification, %d results of the code validated, %.0f s' % (
            self.prop, self.states, self.traces, time.time() - self.t0))
        return 0


# ---------------------------------------------------------------- properties
def c01(k):
    k.model('MC_Reader', keep=0)
    k.model('MC_ReaderLive', keep=0)
    n = 12 if not k.deep else 80
    jobs, bases = [], []
    r = random.Random('c01-%s' % k.seed)
    for f in gen.FAMILIES:
        bases += [x['d'] for x in gen.family(f, 'c01-%s' % k.seed, n)]
    for i, d in enumerate(bases):
        jobs.append({'id': 'cuts-%d' % i, 'hex': d.hex(), 'mode': 'cuts'})
        jobs.append({'id': 'bytes-%d' % i, 'hex': d.hex(), 'mode': 'bytes', 'seed': k.seed + i})
        jobs.append({'id': 'random-%d' % i, 'hex': d.hex(), 'mode': 'random', 'count': 600, 'seed': k.seed * 7 + i})
    # every string over a few letters, behind openings that select a reader
    for i, (pre, letters, m) in enumerate(c01_openings(k.deep)):
        jobs.append({'id': 'enum-%d' % i, 'hex': pre.hex(), 'mode': 'enum', 'letters': letters, 'maxlen': m})
    for i, p in enumerate(gen.REAL):
        size = os.path.getsize(p)
        d = open(p, 'rb').read()
        head, tail = d[:r.randrange(9000, 16000)], d[-r.randrange(4000, 9000):]
        mix = head + tail
        jobs.append({'id': 'real-cuts-%d' % i, 'hex': mix.hex(), 'mode': 'cuts', 'from': r.randrange(97),
                     'step': 9 if k.deep else 97})
        jobs.append({'id': 'real-bytes-%d' % i, 'hex': mix.hex(), 'mode': 'bytes', 'from': r.randrange(59),
                     'step': 5 if k.deep else 59, 'seed': k.seed + i})
        jobs.append({'id': 'real-random-%d' % i, 'file': p, 'mode': 'random', 'count': 60 if k.deep else 3, 'seed': k.seed + i})
    bad, done = run_mass(k.runner, k.w, jobs)
    by_id = {j['id']: j for j in jobs}
    tally = [{'id': a, 'kind': 'tally', 'n': done['inputs'], 'r': v} for a, v in sorted(done['tally'].items())]
    for g in bad:
        job = by_id.get((g['id'] or {}).get('job'))
        row = {'job': {'job': job, 'input': g['id']}}
        k.violation('damage sweep', g['api'], row, {g['api']: g['r']}, what='at %s' % json.dumps(g['id'])[:200])
    k.enough()
    if tally:
        c = conform(k.w, [], tally)
        k.traces += len(tally)
        for api in c['rejects']:
            k.violation('damage sweep', api, {}, {api: done['tally'][api]}, what='not every call returned')
    k.log['damage sweep'] = {'inputs': done['inputs'], 'calls': done['calls']}
    # a sample of damaged recordings, whose results are recorded one by one
    rows = []
    for f in gen.FAMILIES:
        rows += [{'d': gen.mutate(r, x['d'])} for x in gen.family(f, 'c01m-%s' % k.seed, 40 * (5 if k.deep else 1))]
    rows += [x for f in ('big_prints', 'many_pings', 'long_clock', 'big_stats', 'many_frags', 'all_flags')
             for x in getattr(gen, f)(r)]
    k.validate('damaged recordings', rows, kind='returns', apis=['all'])
    k.validate('player lists', extreme_players(), kind='returns')


def c01_openings(deep):
    m = 7 if deep else 6
    return [
        (b'', [0, 2, 3, 6, 8, 255], m + 1),
        (b'', [0, 1, 8, 36, 14, 34], m),
        (b'\x00\x06\x08\x00\x00\x00', [0, 1, 2, 8, 14, 36, 255], m),
        (b'\x00\x06\x30\x00\x00\x00\x08\x01', [0, 32, 10] + list(b'ab'), m),
        (b'\x00\x03\x00\x00\x00\x00\x40\x00\x00\x00', [0, 1, 2, 3, 255], m),
        (b'\x00\x03\x00\x00\x00\x00\x40\x00\x00\x00\x15\x00\x00\x00\x03\x00\x01\x00{"version": ', [0, 1, 2, 3, 125, 255], m),
        (b'\x00\x03\x00\x00\x00\x00', [0, 1, 3, 255], m + 1),
        (b'\x00\x03\x01\x00\x00\x00', [0, 1, 3, 8, 255], m),
        (b'\x00\x0b\x00\x00\x00\x00\x06\x00\x00\x00', [0, 1, 2, 8, 14, 36], m),
        (b'\x00\x01\x90\x00\x00\x00\x09cmd spawn\x00\x28\x00\x41\x00\x00\x00\\name\\', [0, 92, 97, 34, 40, 255], m),
        (b'\x09cmd spawn', [0, 92, 34, 110], m),
        (b'\x09cmd spawn\\name\\', [0, 92, 34, 110], m),
        (b'fullserverinfo "', [0, 34, 92, 97, 110], m),
        (b'\x08\x02matchdate: ', [10, 0, 50, 45, 32], m),
        (b'\x08\x02matchdate: 2024-04-26 16:59:34 ', [10, 43, 45, 48, 57, 58, 67, 195, 169], m - 1),
        (b'\x00\x06\x40\x00\x00\x00\x08\x01ann was telefragged by his teammate\n\x00', [14, 0, 1, 6, 255], m),
        (b'\x00\x06\x0e\x00\x00\x00\x24', [0, 36, 255, 53], m),
        (b'\x00\x06\x40\x00\x00\x00\x08\x02flag', [0, 8, 2, 10, 33], m),
        (b'{"version": ', [0, 34, 46, 44, 49], m),
        (b'{"version": 3, "duration": ', [44, 46, 45, 49, 101, 255], m),
    ]


def extreme_players():
    big = 2 ** 30
    mk = lambda f, p, n='ann', t='red': [list(n.encode()), list(t.encode()), [4, 4], f, p, False, [], []]
    return [{'players': x} for x in ([], [mk(0, 0)], [mk(big - 1, 0)], [mk(-big, 0)], [mk(1, 65535)] * 40,
                                     [mk(0, 10_000_000)] * 50, [mk(-99, 666, 'x', ''), mk(-99, 666, '', 'x')])]


def c02(k):
    ps = k.model('MC_Views', keep=1500)
    rows = [{'players': p} for p in ps]
    r = random.Random('c02-%s' % k.seed)
    rows += [{'players': p} for p in gen.player_lists(r, 300)]
    recs = []
    for x in rows[:1800]:
        recs.append({'players': x['players'], 'apis': ['teams', 'players_sorted', 'team']})
    for f in gen.FAMILIES:
        for x in gen.family(f, 'c02-%s' % k.seed, 6 if not k.deep else 30):
            recs.append({'hex': x['d'].hex()})
            # the same length, one byte different
            if x['d'] and gen.chance(r, 0.5):
                recs.append({'hex': gen_flip(r, x['d']).hex()})
    for d in gen.clusters(r, 4 if not k.deep else 16):
        recs.append({'hex': d.hex()})
    for x in [gen.fam_tied(r) for _ in range(40)]:
        recs.append({'hex': x['d'].hex()})
    for p in gen.REAL:
        recs.append({'hex': open(p, 'rb').read()[:30000].hex()})
    for i, x in enumerate(recs):
        x['id'] = i
    inp = k.w.path('history.in')
    write_jsonl(inp, recs)
    runs = [('forward', 2, 2, {}), ('byapi', 2, 1, {}), ('reverse', 3, 2, {'TZ': 'Asia/Tokyo', 'LANG': 'tr_TR.UTF-8'}), ('shuffle', 8, 2, {'TZ': 'America/New_York'}),
            ('shuffle', 1, 3, {'HOME': '/nonexistent'})]
    if k.deep:
        runs += [('shuffle', 8, 6, {}), ('shuffle', 4, 6, {'TZ': 'UTC'}), ('reverse', 8, 4, {})]
    seen, values = {}, {}

    def observe(pno, args, env):
        out = k.w.path('history.out')
        e = dict(os.environ); e.update(env)
        p = subprocess.run([k.runner, args[0], args[1], out, 'all'] + args[2:],
                           env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limit_memory,
                           cwd='/' if pno % 2 else VERIF)
        got = read_jsonl(out)
        if p.returncode != 0 or not any(g.get('done') for g in got):
            hung = [g for g in got if 'hang' in g]
            k.violation('call history', hung[0]['hang'] if hung else '?', {}, {}, what='process did not finish (%d)' % p.returncode)
            return 0
        for g in got:
            if 'call' not in g:
                continue
            key = tuple(g['call'])
            vs = values.setdefault(key, [])
            m = []
            for v in g['values']:
                s = json.dumps(v, sort_keys=True)
                if s not in vs:
                    vs.append(s)
                m.append(vs.index(s))
            seen.setdefault(key, []).extend([pno, t, n, m[v]] for t, n, v in g['seen'])
        return sum(g.get('calls', 0) for g in got)

    for pno, (order, threads, repeat, env) in enumerate(runs):
        observe(pno, ['history', inp, str(threads), str(k.seed * 31 + pno), str(repeat), order], env)
    # the same calls by all threads at once, in quick succession, on small inputs
    few = []
    for f, n in (('full', 3), ('roster', 1), ('stats', 2), ('clock', 1), ('dates', 1), ('status', 1), ('serverinfo', 1)):
        few += sorted((x['d'] for x in gen.family(f, 'c02s-%s' % k.seed, 30)), key=len)[12:12 + n]
    few += [gen_flip(r, few[0]), gen_flip(r, few[5])]
    for d in few:
        recs.append({'id': len(recs), 'hex': d.hex()})
    write_jsonl(inp, recs[-len(few):])
    quick = observe(len(runs), ['stress', inp, str(2 * CORES), str(k.seed), '200' if not k.deep else '4000'], {})
    keys = sorted(seen)
    tpath = k.w.path('history.trace')
    # observations of one call that agree are told apart only by position: keep a bounded number
    write_jsonl(tpath, [{'call': list(c), 'seen': seen[c][:60] if len({o[3] for o in seen[c]}) == 1 else seen[c]} for c in keys])
    code, out = tlc('CallHistory', env={'TRACE': tpath}, opts=['-continue'], heap='12g', work=k.w)
    g, distinct = tlc_stats(out)
    rej = [int(x) for x in re.findall(r'<<"REJECT", (\d+),', out)]
    if distinct < len(keys) or ('Pure is violated' in out) != bool(rej) or code not in (0, 12):
        raise ToolError('TLC did not validate the call history (exit %d):\n%s' % (code, out[-2000:]))
    k.states += distinct
    k.transitions += g
    k.traces += len(keys)
    k.models['CallHistory'] = {'states': distinct, 'calls': len(keys), 'observations': sum(len(v) for v in seen.values()),
                               'processes': len(runs) + 1, 'simultaneous_calls': quick}
    for x in rej:
        c = keys[x - 1]
        rec = recs[c[0]]
        row = {'call': list(c), 'values': [json.loads(v) for v in values[c]]}
        if 'hex' in rec:
            row['d'] = bytes.fromhex(rec['hex'])
        else:
            row['players'] = rec['players']
        k.violation('call history', c[1], row, {c[1]: values[c][:3]}, what='different results of one call')
    c = k.rng.choice(keys)
    k.samples.append({'call': list(c), 'observations': seen[c][:8], 'value': values[c][0][:200]})


def gen_flip(r, d):
    d = bytearray(d)
    p = r.randrange(len(d))
    d[p] = r.choice([d[p] ^ 1, d[p] ^ 32, (d[p] + 1) % 256])
    return bytes(d)


def c03(k):
    rows = k.model('MC_Frames', keep=2000)
    rows += k.model('MC_Prints', keep=1500)
    torn = []
    for d in rows[:700 if not k.deep else 3500]:
        d = bytes(d)
        for c in k.rng.sample(range(len(d) + 1), min(len(d) + 1, 6 if not k.deep else 20)):
            torn.append({'d': d[:c], 'of': d, 'kind': 'torn'})
    k.validate('torn model recordings', torn)
    torn = []
    n = 25 if not k.deep else 150
    for f in ('prints', 'frags', 'teamkill', 'flags', 'pings', 'clock', 'full', 'stats', 'soup'):
        for x in gen.family(f, 'c03-%s' % k.seed, n):
            d = x['d']
            cuts = set(k.rng.sample(range(len(d) + 1), min(len(d) + 1, 14))) | {0, len(d)}
            # around every frame border
            at = 0
            for _ in range(400):
                e = gen.frame_end(d, at)
                if e is None:
                    break
                cuts |= {c for c in (at + 1, at + 2, at + 6, e - 1, e) if c <= len(d) and k.rng.random() < 0.3}
                at = e
            torn += [{'d': d[:c], 'of': d, 'kind': 'torn'} for c in sorted(cuts)]
    k.validate('torn recordings', torn)
    # every cut of one small recording of each kind
    torn = []
    for f in ('prints', 'frags', 'teamkill', 'flags', 'pings', 'clock', 'dates', 'status'):
        for x in sorted(gen.family(f, 'c03a-%s' % k.seed, 60), key=lambda x: len(x['d']))[30:32 if not k.deep else 40]:
            d = x['d']
            torn += [{'d': d[:c], 'of': d, 'kind': 'torn'} for c in range(len(d) + 1)]
    k.validate('every cut', torn)
    torn = []
    for p in gen.REAL:
        d = open(p, 'rb').read()[:24000]
        torn += [{'d': d[:c], 'of': d, 'kind': 'torn'} for c in k.rng.sample(range(len(d)), 8 if not k.deep else 60)]
    k.validate('torn real demos', torn)


def c04(k):
    k.validate('model: prints', k.model('MC_Prints', keep=8000 if not k.deep else 60000))
    k.validate('model: frames', k.model('MC_Frames', keep=4000 if not k.deep else 60000))
    runs(k)
    sim(k)
    k.fam('prints', 2500)
    k.fam('full', 300)
    k.special('big_prints', 'every_byte')
    k.mutants(['prints', 'full'], 400)
    k.stretched(['prints', 'full'])
    k.fam('soup', 1000)
    k.real(full=1)


def sim(k, n=160):
    k.validate('model: long recordings', k.model('MC_Sim', simulate=n * (10 if k.deep else 1)))


def matches(k, n=64, kind='call'):
    k.validate('model: matches', k.model('MC_Match', simulate=n * (10 if k.deep else 1)), kind=kind)


def documents(k, n=120, kind='call'):
    rows = k.model('MC_Documents', env={'WHAT': 'long'}, simulate=n * (10 if k.deep else 1), label='MC_Documents long')
    k.validate('model: long documents', rows, kind=kind)


def runs(k, n=8):
    """recordings of millions of frames, as runs of equal frames"""
    k.model('MC_Runs', keep=0)
    rows = k.model('MC_Runs', cfg='MC_RunsFar', simulate=2 * n * (4 if k.deep else 1), keep=n * (4 if k.deep else 1), label='MC_Runs far')
    rows = [{'runs': [{'b': bytes(u['b']), 'n': u['n']} for u in row]} for row in rows]
    k.validate('model: runs of frames', far_runs() + rows)


def far_runs():
    """more than 2^31 and 2^32 milliseconds, 2^16 of everything"""
    idle = {'b': b'\xff\x00', 'n': 17_000_000}
    u = lambda b, n: {'b': gen.frame(7, 6, b), 'n': n}
    date = u(gen.prt(2, 'matchdate: 2024-04-26 16:59:34 CEST\n'), 1)
    over = u(gen.prt(2, 'The match is over\n'), 2)
    return [{'runs': [idle, date, {'b': b'\xfb\x07', 'n': 999}, over, idle]},
            {'runs': [date, idle, u(gen.status('Standby'), 1)]},
            {'runs': [u(gen.prt(1, "ann rides bob's rocket\n"), 140_000), u(gen.prt(1, 'bob died\n'), 70_001), u(gen.prt(2, b'ann' + gen.FLAG['returns'][0]), 70_000)]}]


def c05(k):
    k.validate('model: obituaries', k.model('MC_Obituaries', keep=8000 if not k.deep else 60000))
    k.validate('model: frags', k.model('MC_Frags', keep=5000 if not k.deep else 60000))
    runs(k)
    sim(k)
    k.fam('frags', 2500)
    k.fam('teamkill', 500)
    k.special('all_obituaries', 'many_frags', 'many_names', 'every_byte')
    k.mutants(['frags', 'full'], 300)
    k.stretched(['frags', 'full'])
    k.fam('soup', 1000)
    k.real(full=1)


def c06(k):
    k.validate('model: team kills', k.model('MC_Teamkill', keep=8000 if not k.deep else 60000))
    sim(k)
    k.fam('teamkill', 5000)
    k.fam('frags', 500)
    k.mutants(['teamkill'], 1200)
    k.special('many_frags', 'far_teamkills')
    k.stretched(['teamkill', 'frags'])
    k.fam('soup', 1000)


def c07(k):
    k.validate('model: flags', k.model('MC_Flags', keep=8000 if not k.deep else 60000))
    runs(k)
    sim(k)
    k.fam('flags', 3500)
    k.fam('full', 300)
    k.special('all_flags', 'many_names', 'every_byte')
    k.stretched(['flags', 'full'])
    k.fam('soup', 1000)
    k.real(full=1)
    known(k)


def c08(k):
    k.validate('model: pings', k.model('MC_Pings', keep=10000 if not k.deep else 60000))
    runs(k)
    sim(k)
    k.fam('pings', 5000)
    k.fam('full', 300)
    k.special('many_pings')
    k.mutants(['pings', 'full'], 600)
    k.stretched(['pings', 'full'])
    k.fam('soup', 1000)
    k.real(full=1)


def c09(k):
    k.validate('model: clock', k.model('MC_Clock', keep=5000 if not k.deep else 60000))
    k.validate('model: clock (hoonymode)', k.model('MC_Clock', env={'MODE': 'hoonymode'}, keep=4000 if not k.deep else 60000, label='MC_Clock hoonymode'))
    runs(k)
    sim(k)
    k.fam('clock', 3000)
    k.fam('full', 300)
    k.special('long_clock', 'many_marks')
    k.mutants(['clock'], 600)
    k.stretched(['clock', 'full'])
    k.fam('soup', 1000)
    k.real(full=1)


def c10(k):
    c09(k)
    matches(k)
    documents(k)
    k.stretched(['stats'])
    k.fam('stats', 800)
    k.special('big_stats')


def c11(k):
    k.validate('model: roster', k.model('MC_Roster', keep=6000 if not k.deep else 60000))
    k.validate('model: userinfo layouts', k.model('MC_Layout', env={'LAYOUT': 'users'}, label='MC_Layout users'))
    k.fam('roster', 4000)
    k.fam('valid', 300)
    k.mutants(['roster', 'full'], 500)
    k.special('big_rosters', 'every_byte')
    k.stretched(['roster', 'full', 'valid'])
    k.fam('soup', 1000)
    k.real(prefix=120000)


def c12(k):
    k.validate('model: roster', k.model('MC_Roster', keep=6000 if not k.deep else 60000))
    matches(k)
    k.fam('roster', 3500)
    k.fam('stats', 500)
    k.fam('full', 500)
    k.mutants(['roster'], 600)
    k.special('big_rosters', 'every_byte')
    k.stretched(['roster', 'stats', 'full'])
    k.fam('soup', 1000)
    k.real(prefix=120000, full=1)


def c13(k):
    ps = k.model('MC_Views', keep=3000 if not k.deep else 10**6)
    k.validate('model: player lists', [{'players': p} for p in ps])
    k.validate('model: roster', k.model('MC_Roster', keep=3000 if not k.deep else 60000))
    matches(k)
    documents(k)
    k.fam('roster', 1500)
    k.fam('full', 1200)
    only_players(k, 'stats', 1500)
    k.fam('pings', 300)
    k.fam('frags', 300)
    k.mutants(['full', 'stats', 'roster'], 200)
    k.special('big_rosters', 'every_byte', 'many_frags', 'many_names')
    k.validate('wide player lists', [{'players': p} for p in gen.wide_lists(random.Random('wide-%s' % k.seed))])
    k.stretched(['roster', 'full', 'stats'])
    k.fam('soup', 1000)
    k.real(full=1)


def only_players(k, f, n):
    rows = gen.family(f, k.seed, n * (8 if k.deep else 1))
    for x in rows:
        if 'stats' in x.get('know', {}):
            x['know'] = {'stats': {'players': x['know']['stats']['players']}}
    APIS['C13'] = APIS['C13'] + ['ktx_v3']
    k.validate('generated: ' + f, rows)
    APIS['C13'] = APIS['C13'][:3]


def c14(k):
    ps = k.model('MC_Views', keep=3000 if not k.deep else 10**6)
    k.validate('model: player lists', [{'players': p} for p in ps])
    matches(k)
    k.validate('player lists', [{'players': p} for p in gen.player_lists(random.Random('c14-%s' % k.seed), 2500 * (8 if k.deep else 1))])
    k.validate('extreme player lists', extreme_players())
    k.validate('wide player lists', [{'players': p} for p in gen.wide_lists(random.Random('wide-%s' % k.seed))])
    k.special('big_rosters', 'every_byte')
    k.fam('roster', 1500)
    k.fam('full', 800)
    documents(k, 60)
    k.fam('stats', 1500)
    k.validate('ties', [gen.fam_tied(random.Random('c14t-%s-%d' % (k.seed, i))) for i in range(300)])
    k.stretched(['roster', 'full', 'stats'])
    k.fam('soup', 1000)
    k.real(full=1)


def c15(k):
    k.validate('model: statistics', k.model('MC_Stats', keep=8000 if not k.deep else 60000))
    matches(k)
    k.validate('model: documents', k.model('MC_Documents', keep=9000 if not k.deep else 60000))
    documents(k, 240)
    k.fam('stats', 4000)
    k.fam('json', 3500)
    k.special('big_stats', 'many_marks')
    torn = []
    for x in gen.family('stats', 'c15-%s' % k.seed, 60 if not k.deep else 300):
        at = x['d'].rfind(b'{"version": ')
        for c in k.rng.sample(range(max(0, at - 20), len(x['d']) + 1), 10):
            torn.append({'d': x['d'][:c]})
    k.validate('torn statistics', torn)
    k.mutants(['stats'], 800)
    k.stretched(['stats', 'json'])
    k.fam('soup', 1000)
    k.real(prefix=60000, full=2)
    k.validate('ends of real demos', [{'d': open(p, 'rb').read()[-60000:]} for p in gen.REAL])


def c16(k):
    k.validate('model: serverinfo layouts', k.model('MC_Layout', env={'LAYOUT': 'serverinfo'}, label='MC_Layout serverinfo'))
    k.fam('serverinfo', 7000)
    k.fam('roster', 500)
    k.mutants(['serverinfo'], 1500)
    k.special('every_byte')
    k.stretched(['serverinfo'])
    k.fam('soup', 1000)
    k.real(prefix=20000)


def c17(k):
    k.validate('model: validity layouts', k.model('MC_Layout', env={'LAYOUT': 'valid'}, label='MC_Layout valid'))
    matches(k)
    k.fam('valid', 4000)
    k.fam('full', 300)
    k.mutants(['valid', 'full'], 700)
    k.special('many_marks', 'big_rosters')
    k.stretched(['valid', 'full', 'stats'])
    k.fam('soup', 1000)
    k.real(prefix=20000, full=2)
    k.validate('ends of real demos', [{'d': open(p, 'rb').read()[:9000] + open(p, 'rb').read()[-9000:]} for p in gen.REAL])


def c18(k):
    k.validate('model: status', k.model('MC_Status', keep=9000 if not k.deep else 60000))
    sim(k)
    k.fam('status', 5000)
    k.fam('valid', 500)
    k.mutants(['status'], 1500)
    k.special('many_marks')
    k.stretched(['status', 'status', 'valid'])
    k.fam('soup', 1000)
    k.real(prefix=20000, full=2)


def c19(k):
    k.model('Calendar', keep=0)
    k.validate('model: dates', k.model('MC_Dates', keep=10**6))
    k.fam('dates', 5000)
    k.fam('serverinfo', 1500)
    k.special('all_dates', 'odd_dates', 'many_marks')
    k.mutants(['dates'], 2500)
    k.stretched(['dates', 'serverinfo'])
    k.fam('soup', 1000)
    k.real(prefix=60000)


def c20(k):
    matches(k, kind='joint')
    documents(k, kind='joint')
    sim(k)
    k.model('MC_Views', keep=0)
    fams = {'full': 900, 'roster': 500, 'stats': 700, 'clock': 500, 'valid': 400, 'serverinfo': 200, 'status': 300,
            'dates': 200, 'frags': 200, 'pings': 200, 'soup': 500}
    for f, n in fams.items():
        k.validate('generated: ' + f, gen.family(f, k.seed, n * (8 if k.deep else 1)), kind='joint')
    k.stretched(['full', 'stats', 'valid', 'clock', 'roster'], kind='joint')
    r = random.Random('c20-%s' % k.seed)
    k.validate('damaged recordings', [{'d': gen.mutate(r, x['d'])} for f in ('full', 'stats', 'roster', 'clock')
                                      for x in gen.family(f, 'c20-%s' % k.seed, 250 * (8 if k.deep else 1))], kind='joint')
    rows = []
    for p in gen.REAL:
        d = open(p, 'rb').read()
        rows += [{'d': d}] + [{'d': d[:r.randrange(len(d))]} for _ in range(1 if not k.deep else 12)]
        rows += [{'d': d[:r.randrange(20000)] + d[-r.randrange(12000):]} for _ in range(10)]
    k.validate('real demos', rows, kind='joint', chunk_bytes=10**9)


FINDINGS = os.path.join(VERIF, 'known-findings.txt')


def findings(prop):
    out = []
    with open(FINDINGS) as f:
        for line in f:
            m = re.match(r'finding: property=(\S+) id=(\S+) api=(\S+) ledger=(\S+) input=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append(dict(zip(('prop', 'id', 'api', 'ledger', 'input', 'what'), m.groups())))
    return out


def known(k):
    """the listed inputs for which the code is known to miss the ledger"""
    fs = findings(k.prop)
    if not fs:
        return
    rows = [bytes.fromhex(f['input']) for f in fs]
    res = run_runner(k.runner, k.w, [{'id': i, 'hex': d.hex()} for i, d in enumerate(rows)], APIS[k.prop])
    ev = [event(i, i + 1, res[i], kind='ledger', ledger={f['api']: json.loads(f['ledger'])}) for i, f in enumerate(fs)]
    c = conform(k.w, rows, ev)
    k.traces += len(ev)
    for i, f in enumerate(fs):
        if i in c['rejects']:
            print('KNOWN-FINDING: property=%s %s (%s)' % (k.prop, f['what'], f['id']), flush=True)


CHECKS = {p: globals()[p.lower()] for p in ['C%02d' % i for i in range(1, 21)]}


def replay(path):
    rec = json.load(open(path))
    runner = build_runner()
    w = Work('replay')
    if 'players' in rec:
        r = {'id': 0, 'players': rec['players'], 'apis': ['teams', 'players_sorted', 'team']}
    elif 'runs' in rec:
        r = {'id': 0, 'runs': rec['runs']}
    elif 'hex' in rec:
        r = {'id': 0, 'hex': rec['hex']}
    else:
        inp = rec['job']['input']
        job = rec['job']['job']
        d = bytes.fromhex(job['hex']) if 'hex' in job else open(job['file'], 'rb').read()
        d = bytearray(d[:inp['cut']])
        for p, v in inp['edits']:
            if p < len(d):
                d[p] = v
        r = {'id': 0, 'hex': (bytes(d) + bytes(inp['tail'])).hex()}
    res = run_runner(runner, w, [r], rec['apis'] or [rec['api']], threads=1)
    print(json.dumps(res[0].get(rec['api'], res[0]))[:4000])
    if ('hex' in r or 'intact' in rec) and rec['kind'] in ('call', 'torn', 'joint', 'returns'):
        base = bytes.fromhex(rec.get('intact') or r['hex'])
        more = {'know': rec['know']} if 'know' in rec else {}
        e = event(0, 1, res[0], cut=len(r['hex']) // 2 if rec['kind'] == 'torn' else -1, kind=rec['kind'], **more)
        print(conform(w, [base], [e])['rejects'])
    w.done()


def main():
    a = sys.argv[1:]
    if a[0] == '--setup':
        build_runner()
        return 0
    if a[0] == '--replay':
        replay(a[1])
        return 0
    prop = a[0]
    tier = 'thorough' if '--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in a else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    k = Check(prop, tier, seed)
    try:
        CHECKS[prop](k)
        return k.finish(ASSUME)
    except Enough:
        return k.finish(ASSUME)
    except ToolError:
        # a call that never returned leaves results that cannot be validated
        if k.violations:
            return k.finish(ASSUME)
        raise


ASSUME = ['the runner (harness/) reports what the public functions return; they are called in a debug build, with overflow checks',
          'flag counters are read from their Debug output, the only access the library gives',
          'not specified (the calls only have to return): match dates with blanks or signs inside the numbers, numeric offsets of '
          '1 or 3 digits, second 60, and durations in statistics that are not plain decimal numbers']

if __name__ == '__main__':
    try:
        sys.exit(main())
    except ToolError as e:
        print('ERROR: %s' % e)
        sys.exit(2)
