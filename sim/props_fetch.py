"""Workloads about remote files and the download cache (C07, C08)."""
import json

import fetching
import props_env
import scenario
import world as W

URLS = ('http://files.example/a.tar.gz', 'http://files.example/dir/b',
        'https://files.example/c.json', 'http://files.example/d?x=1&y=2',
        'http://other.example:8080/a.tar.gz')
# easily taken for one another
ALIKE = (('http://files.example/d?x=1&y=2', 'http://files.example/d?x=1&y=3',
          'http://files.example/d'),
         ('http://files.example/a.tar.gz', 'http://files.example/A.tar.gz',
          'http://files.example/dir/a.tar.gz'),
         ('http://files.example/dir/b', 'http://other.example:8080/dir/b',
          'https://files.example/dir/b'))
CODES = (404, 500, 503, 403, 410, 502, 429, 401, 304, 300, 204, 202, 307,
         206)


def gen_files(rng, w):
    w['files'] = files = {}
    sizes = list(fetching.SIZES)
    if rng.randrange(8) == 0:
        sizes = [2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 2500000]
    urls = rng.choice(ALIKE) if rng.randrange(3) == 0 else URLS
    for url in rng.sample(urls, rng.choice((1, 1, 2, 3))):
        files[url] = {'size': rng.choice(sizes), 'seed': rng.randrange(9999)}
    if rng.randrange(3) == 0:
        url = rng.choice(('/srv/files/local', 'file:///srv/files/local'))
        files[url] = {'size': rng.choice(fetching.SIZES[:-1]),
                      'seed': rng.randrange(9999)}
    w['missing'] = ['http://files.example/none'] if rng.randrange(3) == 0 \
        else []
    w['build'] = ['fetching']


def gen_acts(rng, w, most=9, urls=None, sums=True):
    urls = urls or sorted(w['files']) + w['missing']
    acts = []
    sizes = {}

    def opening(f):
        url = rng.choice(urls)
        act = {'do': 'open', 'f': f, 'url': url}
        if sums and rng.randrange(3) == 0:
            act['sum'] = 'right' if url not in w['files'] \
                else rng.choice(('right', 'right', 'right', 'wrong'))
            act['algo'] = rng.choice(('md5', 'sha1', 'sha256'))
        sizes[f] = w['files'].get(url, {'size': 0})['size']
        acts.append(act)
        if act.get('sum') and rng.randrange(3):
            acts.append({'do': 'verify', 'f': f})
    opening(0)
    for _ in range(rng.randrange(1, most)):
        f = rng.choice(sorted(sizes))
        size = sizes[f]
        what = rng.choice(('read', 'read', 'readn', 'readn', 'seek', 'tell',
                           'verify', 'open', 'rewind'))
        if what == 'open':
            opening(rng.choice((0, 1, 2)))
        elif what == 'read':
            acts.append({'do': 'read', 'f': f, 'args': []})
        elif what == 'readn':
            acts.append({'do': 'read', 'f': f, 'args': [rng.choice((
                0, 1, 7, 512, 10000, max(0, size - 1), size, size + 1,
                -1))]})
        elif what == 'rewind':
            acts.append({'do': 'seek', 'f': f, 'args': [0]})
        elif what == 'seek':
            args = [rng.randrange(size + 1)]
            if rng.randrange(3) == 0:
                args = [0, 2]
            acts.append({'do': 'seek', 'f': f, 'args': args})
        else:
            acts.append({'do': what, 'f': f})
    if rng.randrange(2):
        f = rng.choice(sorted(sizes))
        acts.append({'do': 'seek', 'f': f, 'args': [0]})
        acts.append({'do': 'read', 'f': f, 'args': []})
    return acts


def gen_net(rng):
    return {'framing': rng.choice(('length', 'chunked', 'close')),
            'chunk': rng.choice((100, 1000, 65536)),
            'gzip': rng.randrange(3) == 0}


def gen_script(rng, requests, corrupt=False):
    script = {}
    for _ in range(rng.choice((1, 1, 2, 3))):
        number = rng.randrange(1, max(1, requests) + 2)
        kind = rng.choice(('refused', 'dns', 'connect_timeout', 'status',
                           'status', 'truncate', 'truncate', 'truncate',
                           'reset', 'reset', 'stall', 'redirect', 'garbage',
                           'loop', 'gone'))
        if corrupt and rng.randrange(4) == 0:
            kind = 'corrupt'
        fault = {'kind': kind}
        if kind == 'status':
            fault['code'] = rng.choice(CODES)
        elif kind == 'garbage':
            fault['what'] = rng.choice(('empty', 'chunks'))
        elif kind in ('truncate', 'reset', 'stall'):
            fault['at'] = rng.choice((0.0, 0.01, 0.3, 0.5, 0.9, 0.999,
                                      rng.random()))
            fault['late'] = rng.randrange(2)
        elif kind == 'corrupt':
            fault['at'] = rng.random()
        script[str(number)] = fault
    return script


class FetchProp(object):
    def world(self, rng):
        w = props_env.gen_world(rng, names=rng.sample(W.NAMES, 2),
                                files=(1, 3), max_versions=2)
        w['repos']['http://pkgs.example/repo'] = w['repos']['/srv/repo']
        w['cache'] = self.cache(rng)
        gen_files(rng, w)
        return w

    def gen_install(self, rng, state, via=None):
        w = state.world
        op = props_env.gen_install(rng, w, sorted(state.envs)[0], via=via)
        op['do'] = 'remote'
        op['repo'] = 'http://pkgs.example/repo'
        if '://' not in op['what'] and '/' in op['what']:
            name = w['universe'][w['paths'][op['what']]]['name']
            op['what'] = w['requirement'][name]
        op['net'] = gen_net(rng)
        return op

    def prepare(self, state):
        for prefix in sorted(state.envs):
            yield {'do': 'mkenv', 'env': prefix, 'strict': False,
                   'via': 'api'}


class C07(FetchProp):
    id = 'C07'

    def cache(self, rng):
        return rng.choice((None, None, '/srv/cache'))

    def history(self, rng, state):
        for op in self.prepare(state):
            yield op
        if state.world['cache'] and rng.randrange(2):
            yield self.gen_fetch(rng, state)

    def gen_fetch(self, rng, state):
        return {'do': 'fetch', 'parts': [{'acts': gen_acts(
            rng, state.world)}], 'net': gen_net(rng)}

    def target(self, rng, state):
        if rng.randrange(4) == 0:
            return self.gen_install(rng, state)
        return self.gen_fetch(rng, state)

    def before(self, rng, state, target, dry):
        self.caching = bool(state.world['cache'])
        return ()

    def inject(self, rng, op, dry, number):
        op = json.loads(json.dumps(op))
        net = op['net'] = dict(op['net'])
        if number == 0 and rng.randrange(2):
            net['down'] = True
            return op
        # what is not checked cannot be noticed
        summed = op['do'] == 'fetch' and not self.caching and all(
            a.get('sum') for a in op['parts'][0]['acts']
            if a['do'] == 'open' and fetching.remote(a['url']))
        net['script'] = gen_script(rng, len(dry.requests), summed)
        return op

    def after(self, rng, state, target, result):
        if rng.randrange(3):
            yield target
        if rng.randrange(4) == 0:
            yield self.gen_fetch(rng, state)


class C08(FetchProp):
    id = 'C08'
    families = ('kill', 'power', 'error', 'error', 'full', 'net', 'race',
                'race', 'race')

    def world(self, rng):
        w = FetchProp.world(self, rng)
        w['cache_exists'] = rng.randrange(10) > 0
        return w

    def cache(self, rng):
        return rng.choice(('/srv/cache', '/srv/a/cache dir'))

    def history(self, rng, state):
        for op in self.prepare(state):
            yield op
        for _ in range(rng.choice((0, 0, 1, 2))):
            yield self.gen_fetch(rng, state)

    def gen_fetch(self, rng, state, parts=1):
        w = state.world
        urls = None
        if parts > 1:
            # the same ones
            urls = [u for u in sorted(w['files']) if fetching.remote(u)]
            urls = rng.sample(urls, rng.choice((1, 1, len(urls))))
        return {'do': 'fetch', 'net': gen_net(rng), 'parts': [
            {'acts': gen_acts(rng, w, 6 if parts > 1 else 9, urls,
                              parts == 1 or rng.randrange(3) == 0)}
            for _ in range(parts)]}

    def target(self, rng, state):
        what = rng.randrange(5)
        if what == 0:
            return self.gen_install(rng, state)
        if what in (1, 2):
            return self.gen_fetch(rng, state, rng.choice((2, 2, 3)))
        return self.gen_fetch(rng, state)

    def in_cache(self, state, dry):
        """The kinds of the steps, those outside of the cache masked."""
        cache = state.world['cache']
        return [kind if place and str(place).startswith(cache) else 'other'
                for kind, place in zip(dry.kinds, dry.places)]

    def before(self, rng, state, target, dry):
        self.cache_dir = state.world['cache']
        self.state = state
        if rng.randrange(12) == 0:
            yield {'do': 'cachedir', 'how': rng.choice(
                ('remove', 'readonly', 'file', 'create'))}

    def inject(self, rng, op, dry, number):
        op = json.loads(json.dumps(op))
        if op['do'] == 'remote':
            kinds = self.in_cache(self.state, dry)
            family = rng.choice(('kill', 'error', 'error', 'full'))
            fault = None
            if [k for k in kinds if k != 'other']:
                kinds = [k if k != 'other' else 'stat' for k in kinds]
                for _ in range(20):
                    fault = scenario.gen_fault(rng, family, kinds)
                    if fault is None or str(dry.places[fault['at'] - 1]
                                            ).startswith(self.cache_dir):
                        break
                    fault = None
            op['faults'] = [fault] if fault else []
            return op
        if len(op['parts']) > 1:
            return self.inject_race(rng, op, dry)
        family = rng.choice([f for f in self.families if f != 'race'])
        if family == 'power':
            op['power'] = scenario.gen_power(rng, dry.kinds)
        elif family == 'net':
            op['net']['script'] = gen_script(rng, len(dry.requests))
        else:
            fault = scenario.gen_fault(rng, family, dry.kinds)
            op['parts'][0]['faults'] = [fault] if fault else []
        return op

    def inject_race(self, rng, op, dry):
        lengths = [len(r.kinds) for r in dry.parts]
        op['schedule'] = gen_schedule(rng, lengths)
        if rng.randrange(2) == 0:
            which = rng.randrange(len(lengths))
            fault = scenario.gen_fault(
                rng, rng.choice(('kill', 'error', 'full')),
                dry.parts[which].kinds)
            op['parts'][which]['faults'] = [fault] if fault else []
        if rng.randrange(3) == 0:
            op['net']['script'] = gen_script(rng, len(dry.requests))
        return op

    def after(self, rng, state, target, result):
        if rng.randrange(2):
            yield target
        yield self.gen_fetch(rng, state)


def gen_schedule(rng, lengths):
    """{yield number: process}: mostly few switches, sometimes many."""
    total = sum(lengths) + 2 * len(lengths)
    count = len(lengths)
    schedule = {'0': rng.randrange(count)}
    style = rng.randrange(4)
    if style == 0:
        for at in range(1, total):
            if rng.randrange(3) == 0:
                schedule[str(at)] = rng.randrange(count)
    elif style == 1:
        # strictly one after the other, step by step
        start, end = sorted((rng.randrange(total), rng.randrange(total)))
        for at in range(start, end):
            schedule[str(at)] = at % count
    else:
        for _ in range(rng.randrange(1, 9)):
            schedule[str(rng.randrange(1, total))] = rng.randrange(count)
    return schedule


PROPS = dict((p.id, p) for p in (C07, C08))
