"""Workloads about environments (C01-C06, C17, C19)."""
import json

import envs as E
import scenario
import world as W


def gen_config(rng):
    return {
        'bufsize': rng.choice((64, 512, 4096, 65536)),
        'shuffle': True,
        'clock_jump': rng.choice((0, 0, 4)),
        'collide': rng.choice((0, 0, 3)),
        'uid': rng.choice((0, 0, 1000)),
        # how the paths of environments are written
        'spelling': rng.choice((None,) * 9 + ('relative', 'slash', 'dots')),
        'debug': rng.randrange(6) == 0,
    }


def gen_world(rng, envs=1, remote=True, **kw):
    universe, requirement = W.gen_universe(rng, **kw)
    pids = sorted(universe)
    here = [p for p in pids if rng.randrange(8)] or pids
    world = {
        'universe': universe,
        'requirement': requirement,
        'repos': {'/srv/repo': here},
        'paths': {},
        'envs': rng.sample(W.ENV_PREFIXES + (
            W.ODD_PREFIXES if rng.randrange(4) == 0 else []), envs),
        'user': {},
        'config': gen_config(rng),
        'cache': rng.choice((None, None, '/srv/cache')),
    }
    if remote and rng.randrange(3) == 0:
        world['repos']['http://pkgs.example/repo'] = here
    names = sorted(set(universe[p]['name'] for p in pids))
    for pid in pids:
        world['paths']['/srv/pkgs/' + W.filename(universe[pid])] = pid
        if remote and rng.randrange(4) == 0:
            world['paths']['http://pkgs.example/d/' +
                           W.filename(universe[pid])] = pid
    for prefix in world['envs']:
        if rng.randrange(3):
            world['user'][prefix] = W.gen_user_files(rng, names)
    return world


def usable(universe, pid):
    return universe[pid]['platform'] in ('any', W.PLATFORM)


def gen_install(rng, w, env, pid=None, via=None):
    universe = w['universe']
    pids = sorted(p for p in universe if usable(universe, p))
    any_of_them = pid is None
    pid = pid or rng.choice(pids)
    spec = universe[pid]
    repo = rng.choice(sorted(w['repos']))
    op = {'do': 'install', 'env': env,
          'via': via or rng.choice(('api', 'cli'))}
    ways = ['path', 'path', 'requirement', 'requirement', 'exact']
    way = rng.choice(ways)
    if way == 'path':
        choices = sorted(k for k, v in w['paths'].items() if v == pid)
        op['what'] = rng.choice(choices)
        if '://' in op['what']:
            op['via'] = 'api'
        if spec['dependencies'] or rng.randrange(2):
            op['repo'] = repo
    elif way == 'requirement':
        op['what'] = w['requirement'][spec['name']]
        op['repo'] = repo
    else:
        op['what'] = '%s==%s' % (spec['name'], spec['version'])
        op['repo'] = repo
    if rng.randrange(20) == 0:
        op.pop('repo', None)
    if any_of_them and rng.randrange(40) == 0:
        op['what'] = rng.choice([r for r in W.INVALID_REQUIREMENTS if r])
    return op


def gen_uninstall(rng, w, model, via=None):
    if not model.installed:
        return None
    return {'do': 'uninstall', 'env': model.prefix,
            'name': rng.choice(sorted(model.installed)),
            'via': via or rng.choice(('api', 'cli'))}


def gen_configset(rng, model):
    return {'do': 'config', 'env': model.prefix,
            'key': rng.choice(('repository', 'color', 'x')),
            'value': rng.choice(('http://a/b', 'blue', '50%', '')) +
            str(rng.randrange(100)), 'via': rng.choice(('api', 'cli'))}


def gen_upgrade(rng, w, model, via=None):
    """Install another version of something installed."""
    universe = w['universe']
    choices = [p for p in sorted(universe) if usable(universe, p)
               and universe[p]['name'] in model.installed
               and model.installed[universe[p]['name']] != p]
    if not choices:
        return None
    pid = rng.choice(choices)
    op = gen_install(rng, w, model.prefix, pid, via)
    if E.resolve(w, op['what'], op.get('repo')) != pid:
        # not what this designates: say it exactly
        op['what'] = '/srv/pkgs/' + W.filename(universe[pid])
    return op


class EnvProp(object):
    """History, then one faulted operation, then recovery."""

    families = ('kill', 'error', 'full', 'net')
    mix = ('install', 'install', 'upgrade', 'uninstall', 'config')
    target_mix = None
    session = 0         # one target in N is a session
    worldargs = {}

    def world(self, rng):
        return gen_world(rng, **self.worldargs)

    def history(self, rng, state):
        w = state.world
        for prefix in sorted(state.envs):
            yield {'do': 'mkenv', 'env': prefix, 'strict': False,
                   'via': 'api'}
        for _ in range(rng.choice((0, 1, 2, 3, 5))):
            prefix = rng.choice(sorted(state.envs))
            op = self.pick(rng, state, prefix, self.mix)
            if op is not None:
                yield op

    def pick(self, rng, state, prefix, mix):
        model = state.envs[prefix]
        w = state.world
        for _ in range(4):
            what = rng.choice(mix)
            if what == 'install':
                op = gen_install(rng, w, prefix)
            elif what == 'uninstall':
                op = gen_uninstall(rng, w, model)
            elif what == 'upgrade':
                op = gen_upgrade(rng, w, model)
            elif what == 'config':
                op = gen_configset(rng, model)
            elif what == 'again':
                op = gen_install(rng, w, prefix)
            else:
                raise ValueError(what)
            if op is not None:
                net = rng.choice(('length', 'chunked'))
                op['net'] = {'framing': net, 'chunk': rng.choice((300, 2000))}
                return op
        return gen_install(rng, w, prefix)

    def target(self, rng, state):
        prefix = rng.choice(sorted(state.envs))
        if self.session and rng.randrange(self.session) == 0:
            return self.gen_session(rng, state, prefix)
        return self.pick(rng, state, prefix, self.target_mix or self.mix)

    def gen_session(self, rng, state, prefix):
        first = self.pick(rng, state, prefix, self.target_mix or self.mix)
        acts = []

        def add(op, **kw):
            op = dict(op, **kw)
            op.pop('via', None)
            op.pop('net', None)
            acts.append(op)
        add(first)
        add({'do': 'free'})
        add(first, after_faults=True)
        if rng.randrange(2):
            other = self.pick(rng, state, prefix, self.mix)
            add(other, after_faults=True)
        return {'do': 'session', 'env': prefix, 'acts': acts,
                'net': first.get('net')}

    def inject(self, rng, op, dry, number):
        families = self.families
        if op['do'] == 'session':
            return self.inject_session(rng, op, dry)
        if not dry.requests:
            families = [f for f in families if f != 'net']
        return scenario.inject(rng, op, dry, families)

    def inject_session(self, rng, op, dry):
        # only in the first act: faults stop there
        free = dry.marks[0] if dry.marks else None
        kinds = dry.kinds[:free] if free else dry.kinds
        family = rng.choice(('error', 'error', 'full'))
        fault = scenario.gen_fault(rng, family, kinds)
        op = dict(op)
        op['faults'] = [fault] if fault else []
        return op

    def after(self, rng, state, target, result):
        """Recovery: the operation again, and something else."""
        if target['do'] == 'session':
            prefix = target['env']
            for _ in range(rng.choice((0, 1))):
                yield self.pick(rng, state, prefix, self.mix)
            return
        if result.status != 'ok' or rng.randrange(4) == 0:
            retry = json.loads(json.dumps(target))
            if rng.randrange(5) == 0 and result.kinds:
                # the retry may be hit too
                at = rng.randrange(1, 2 * len(result.kinds))
                yield dict(retry, faults=[
                    {'at': at, 'kind': rng.choice(('kill', 'error')),
                     'errno': 'EIO', 'part': 0.5}])
            yield retry
        for _ in range(rng.choice((0, 1, 1, 2))):
            yield self.pick(rng, state, target['env'], self.mix)


class C01(EnvProp):
    id = 'C01'
    families = ('kill', 'kill', 'power', 'power', 'error', 'full', 'net')
    worldargs = {'files': (1, 4)}

    def after(self, rng, state, target, result):
        for op in EnvProp.after(self, rng, state, target, result):
            yield op
        if rng.randrange(6) == 0:
            prefix = target['env']
            one = self.pick(rng, state, prefix, self.mix)
            one.pop('net', None)
            yield {'do': 'damaged', 'env': prefix, 'op': one,
                   'how': rng.choice(('truncate', 'truncate', 'zeros',
                                      'extra')),
                   'at': rng.choice((0, 0.999, rng.random()))}


class C02(EnvProp):
    id = 'C02'
    families = ('kill', 'kill', 'error', 'full', 'net')
    mix = ('install', 'install', 'upgrade', 'uninstall')
    worldargs = {'files': (2, 9)}


class C03(EnvProp):
    id = 'C03'
    families = ('kill', 'error', 'error', 'full', 'net')
    session = 3


class C04(EnvProp):
    id = 'C04'
    families = ('kill', 'error')
    target_mix = ('uninstall',)
    mix = ('install', 'install', 'install', 'upgrade', 'uninstall')
    session = 8

    def history(self, rng, state):
        for op in EnvProp.history(self, rng, state):
            yield op
        for _ in range(2):
            yield gen_install(rng, state.world,
                              rng.choice(sorted(state.envs)))


class C05(EnvProp):
    id = 'C05'
    families = ('kill', 'kill', 'error', 'full', 'net')
    target_mix = ('upgrade',)
    session = 8

    def world(self, rng):
        return gen_world(rng, names=rng.sample(W.NAMES, 2), files=(2, 7))

    def history(self, rng, state):
        for op in EnvProp.history(self, rng, state):
            yield op
        yield gen_install(rng, state.world, rng.choice(sorted(state.envs)))


class C06(EnvProp):
    id = 'C06'
    families = ('kill', 'error', 'full', 'net', 'net')
    mix = ('install', 'install', 'uninstall', 'upgrade')
    target_mix = ('install', 'install', 'upgrade')

    def world(self, rng):
        w = gen_world(rng, names=rng.sample(W.NAMES, rng.choice((3, 4, 5))),
                      files=(1, 3), max_versions=rng.choice((2, 2, 4)))
        # a denser graph
        return w

    def after(self, rng, state, target, result):
        for op in EnvProp.after(self, rng, state, target, result):
            yield op
        w = state.world
        yield {'do': 'query', 'repo': rng.choice(sorted(w['repos'])),
               'what': [scenario.gen_query(rng, w['universe'])
                        for _ in range(12)]}


class C17(EnvProp):
    id = 'C17'
    families = ('kill', 'error', 'full', 'net')
    worldargs = {'files': (1, 4)}

    def world(self, rng):
        w = gen_world(rng, **self.worldargs)
        if rng.randrange(3) == 0:
            w['cleanup'] = True
            entries = w['user'].setdefault(w['envs'][0], [])
            entries[:] = [e for e in entries
                          if not e['path'].startswith('tmp/')]
            entries += gen_temporary(rng)
            return w
        lines = []
        for name in rng.sample(sorted(w['requirement']),
                               rng.randrange(0, len(w['requirement']) + 1)):
            lines.append(w['requirement'][name])
        path = rng.choice(('/srv/requirements.txt',
                           'http://pkgs.example/requirements.txt'))
        w['texts'] = {path: '\n'.join(lines) + ('\n' if lines else '')}
        w['lines'] = lines
        if rng.randrange(3):
            w['user'] = {}
        return w

    def history(self, rng, state):
        if state.world.get('cleanup'):
            return EnvProp.history(self, rng, state)
        return []

    def target(self, rng, state):
        w = state.world
        prefix = w['envs'][0]
        if w.get('cleanup'):
            return {'do': 'cleanup', 'env': prefix, 'via': 'api'}
        if rng.randrange(3) == 0:
            return {'do': 'mkenv', 'env': prefix, 'via': 'api',
                    'strict': bool(rng.randrange(2))}
        op = {'do': 'mkenv', 'env': prefix, 'via': 'cli', 'strict': True,
              'net': {'framing': rng.choice(('length', 'chunked')),
                      'chunk': 1500}}
        if rng.randrange(5):
            op['requirements'] = sorted(w['texts'])[0]
            op['lines'] = w['lines']
            op['repo'] = rng.choice(sorted(w['repos']))
        return op

    def after(self, rng, state, target, result):
        prefix = target['env']
        if target['do'] == 'cleanup':
            if rng.randrange(4) == 0:
                yield {'do': 'mkenv', 'env': prefix, 'strict': False,
                       'via': 'api'}
            elif rng.randrange(4) or result.status != 'ok':
                yield target
            yield {'do': 'mktmp', 'env': prefix, 'via': 'api'}
            if rng.randrange(3) == 0:
                yield self.pick(rng, state, prefix, self.mix)
            if rng.randrange(3) == 0:
                yield target
            return
        if rng.randrange(3) == 0:
            yield target
        yield {'do': 'mkenv', 'env': prefix, 'strict': False, 'via': 'api'}
        for line in target.get('lines') or ():
            yield {'do': 'install', 'env': prefix, 'what': line,
                   'repo': target.get('repo'), 'via': 'cli'}
        if rng.randrange(3) == 0:
            yield {'do': 'mkenv', 'env': prefix, 'strict': True,
                   'via': 'cli'}


def gen_temporary(rng):
    """Temporary files of the user."""
    result = []
    for path in rng.sample(('tmp/a', 'tmp/ipkg-x/b', 'tmp/ipkg-x/sub/c',
                            'tmp/.hidden', 'tmp/other/d', 'tmp/z z'),
                           rng.randrange(0, 6)):
        result.append({'path': path, 'kind': 'f', 'what': 'blob', 'size': 20,
                       'seed': rng.randrange(1000),
                       'mode': rng.choice((0644, 0600, 0444))})
    for path, to in (('tmp/link', '/home/user'),
                     ('tmp/ipkg-x/file', '/home/user/precious'),
                     ('tmp/up', '..'), ('tmp/dangling', 'nowhere')):
        if rng.randrange(3) == 0:
            result.append({'path': path, 'kind': 'l', 'to': to})
    return result


PROPS = dict((p.id, p) for p in (C01, C02, C03, C04, C05, C06, C17))
