"""Workloads about builds and repositories (C09-C13, C16)."""
import json
import posixpath

import making as M
import props_env
import scenario
import world as W

FAILURES = ('configure', 'make', 'install', 'missing', 'checksum', 'roots',
            'garbage', 'truncated', 'raises', 'incomplete', 'requirement') + \
    tuple(sorted(M.UNLOADABLE))


def gen_build_world(rng, formulas=(1, 4), packages=(1, 3), fails=0,
                    remote=True, files=(1, 5), loops=False, bad_deps=0,
                    algo=None, envs=1, twins=False):
    """A repository of packages, and formulas which may need them."""
    names = rng.sample(W.NAMES, rng.randrange(*packages) + 1)
    # half of the worlds have all the forms of requirements
    forms = None if rng.randrange(2) else ('name', 'name', '==')
    universe, requirement = W.gen_universe(
        rng, names=names[:-1] or names, files=(1, 3), max_versions=2,
        forms=forms, decoys=False)
    if twins and rng.randrange(3) == 0:
        # the same package for somebody else
        pid = rng.choice(sorted(universe))
        universe[pid + '@osx'] = dict(universe[pid],
                                      platform='osx-10.9-x86_64')
    w = {
        'universe': universe, 'requirement': requirement,
        'repos': {'/srv/repo': sorted(universe)},
        'paths': {}, 'envs': rng.sample(W.ENV_PREFIXES + (
            W.ODD_PREFIXES[1:] if rng.randrange(4) == 0 else []), envs), 'user': {},
        'config': props_env.gen_config(rng),
        'cache': rng.choice((None, None, '/srv/cache')),
        'build': ['making'], 'formulas': {},
    }
    if remote and rng.randrange(4) == 0:
        w['repos']['http://pkgs.example/repo'] = sorted(universe)
    for prefix in w['envs']:
        if rng.randrange(2):
            w['user'][prefix] = W.gen_user_files(rng, names)
    others = [n for n in W.NAMES if n not in universe_names(universe)]
    chosen = rng.sample(others, min(len(others), rng.randrange(*formulas)))
    versions = {}
    for name in chosen:
        versions[name] = rng.sample(
            W.VERSIONS, 1 if loops else rng.choice((1, 1, 2)))
    # all requirements of a name are the same: nothing detects conflicts
    form = dict((name, W.gen_requirement(rng, name, versions[name], forms))
                for name in chosen)
    for i, name in enumerate(chosen):
        for version in versions[name]:
            deps = []
            for other in sorted(requirement):
                if rng.randrange(3) == 0:
                    deps.append(requirement[other])
            later = chosen[i + 1:]
            if loops:
                later = [n for n in chosen if n != name]
            for other in later:
                if rng.randrange(3) == 0:
                    deps.append(form[other])
            if bad_deps and rng.randrange(bad_deps) == 0:
                deps.append(rng.choice(
                    ('nowhere', 'nowhere==1.0', 'nowhere>1.0')))
            rng.shuffle(deps)
            fail = rng.choice(FAILURES) \
                if fails and rng.randrange(fails) == 0 else None
            spec = M.gen_formula(
                rng, name, version, rng.choice((1, 1, 2)), deps, remote,
                fail, 'sha256' if fail == 'checksum' else algo, files)
            w['formulas'][M.fid_of(spec)] = spec
    return w


def universe_names(universe):
    return set(s['name'] for s in universe.values())


def gen_env_history(rng, state, most=3, conflicts=False):
    """Create the environment; install what builds would also choose."""
    w = state.world
    for prefix in sorted(state.envs):
        yield {'do': 'mkenv', 'env': prefix, 'strict': False, 'via': 'api'}
        names = sorted(w['requirement'])
        for name in rng.sample(names, min(len(names),
                                          rng.randrange(0, most))):
            if conflicts and rng.randrange(3) == 0:
                yield {'do': 'install', 'env': prefix, 'via': 'api',
                       'what': rng.choice(sorted(
                           '%s==%s' % (s['name'], s['version'])
                           for s in w['universe'].values()
                           if s['name'] == name)), 'repo': '/srv/repo'}
                continue
            yield {'do': 'install', 'env': prefix, 'via': 'api',
                   'what': w['requirement'][name], 'repo': '/srv/repo'}


def gen_build(rng, w, fid=None, env=None, update=None, via=None):
    fid = fid or rng.choice(sorted(w['formulas']))
    update = rng.randrange(2) if update is None else update
    op = {'do': 'build', 'formula': fid, 'env': env,
          'repo': '/srv/repo', 'via': via or rng.choice(('api', 'cli')),
          'dir': '/srv/out',
          'net': {'framing': rng.choice(('length', 'chunked')),
                  'chunk': rng.choice((300, 2000))}}
    if update:
        op['update'] = True
    else:
        op['repo'] = rng.choice(sorted(w['repos']))
        if not w['formulas'][fid]['dependencies'] and rng.randrange(3) == 0:
            op['repo'] = None
    if rng.randrange(6) == 0:
        op['keep'] = True
    if rng.randrange(6) == 0:
        op['verbose'] = True
    if rng.randrange(2):
        op['try'] = rng.choice(('/srv/try/env', '/t'))
    return op


class BuildProp(object):
    families = ('kill', 'error', 'full', 'power', 'net', 'child', 'child')
    env = 2             # one build in N in an existing environment
    worldargs = {}

    def world(self, rng):
        return gen_build_world(rng, **self.worldargs)

    def pick_env(self, rng, state):
        if self.env and rng.randrange(self.env) == 0:
            good = [p for p in sorted(state.envs)
                    if not state.envs[p].lost]
            return rng.choice(good) if good else None
        return None

    def history(self, rng, state):
        for op in gen_env_history(rng, state):
            yield op
        for _ in range(rng.choice((0, 0, 1))):
            yield gen_build(rng, state.world, env=self.pick_env(rng, state))

    def target(self, rng, state):
        return gen_build(rng, state.world, env=self.pick_env(rng, state))

    def inject(self, rng, op, dry, number):
        families = self.families
        if not dry.requests:
            families = [f for f in families if f != 'net']
        if not dry.children:
            families = [f for f in families if f != 'child']
        return scenario.inject(rng, op, dry, families or ('kill',))

    def after(self, rng, state, target, result):
        if target.get('env') and state.envs[target['env']].lost:
            return
        if result.status != 'ok' or rng.randrange(3) == 0:
            yield target
        if rng.randrange(3) == 0:
            yield gen_build(rng, state.world, env=self.pick_env(rng, state))


class C10(BuildProp):
    id = 'C10'
    worldargs = {'formulas': (1, 3), 'files': (1, 9), 'fails': 8}


class C11(BuildProp):
    id = 'C11'
    env = 1
    families = ('child', 'child', 'net', 'error', 'kill')
    worldargs = {'formulas': (1, 4), 'packages': (2, 4), 'fails': 3}

    def history(self, rng, state):
        conflicts = rng.randrange(6) == 0
        for op in gen_env_history(rng, state, 4, conflicts):
            yield op
        for _ in range(rng.choice((0, 1, 1, 2))):
            yield gen_build(rng, state.world, env=self.pick_env(rng, state))

    def inject(self, rng, op, dry, number):
        op = BuildProp.inject(self, rng, op, dry, number)
        op.pop('keep', None)
        return op


class C12(BuildProp):
    id = 'C12'
    env = 5
    families = ('kill', 'kill', 'power', 'error', 'full')
    worldargs = {'formulas': (1, 4), 'files': (1, 3), 'remote': False,
                 'twins': True}

    def history(self, rng, state):
        w = state.world
        for op in gen_env_history(rng, state, 1):
            yield op
        if rng.randrange(4) == 0:
            yield {'do': 'mkrepo', 'repo': '/srv/repo', 'via': 'api'}
        for _ in range(rng.choice((0, 1, 2, 3))):
            yield self.pick(rng, state)

    def pick(self, rng, state):
        w = state.world
        what = rng.choice(('build', 'build', 'mkrepo', 'drop', 'put'))
        packages = sorted(M.on_disk(state.machine.disk, '/srv/repo'))
        if what == 'drop' and packages:
            return {'do': 'tamper', 'how': 'remove',
                    'path': '/srv/repo/' + rng.choice(packages)}
        if what == 'put':
            gone = [p for p in sorted(w['universe'])
                    if M.entry_key(w['universe'][p]) not in packages]
            if gone:
                pid = rng.choice(gone)
                return {'do': 'tamper', 'how': 'put', 'pid': pid,
                        'path': '/srv/repo/' +
                        M.entry_key(w['universe'][pid])}
        if what == 'mkrepo':
            return {'do': 'mkrepo', 'repo': '/srv/repo',
                    'via': rng.choice(('api', 'cli'))}
        return gen_build(rng, w, update=True, env=self.pick_env(rng, state))

    def target(self, rng, state):
        while True:
            op = self.pick(rng, state)
            if op['do'] != 'tamper':
                return op

    def after(self, rng, state, target, result):
        if target['do'] == 'build':
            for op in BuildProp.after(self, rng, state, target, result):
                yield op
        elif result.status != 'ok' or rng.randrange(3) == 0:
            yield target
        if rng.randrange(2):
            yield {'do': 'mkrepo', 'repo': '/srv/repo', 'via': 'api'}
        if rng.randrange(3) == 0:
            yield self.pick(rng, state)


class C13(BuildProp):
    id = 'C13'
    families = ('kill', 'child', 'child', 'child', 'net', 'error')

    def world(self, rng):
        w = gen_build_world(rng, formulas=(2, 6), packages=(1, 3),
                            files=(1, 3), fails=rng.choice((0, 0, 4)),
                            loops=rng.randrange(4) == 0,
                            bad_deps=rng.choice((0, 0, 5)))
        for fid in sorted(w['formulas']):
            spec = w['formulas'][fid]
            if rng.randrange(5):
                continue
            # another revision was already built, maybe elsewhere
            old = {'name': spec['name'], 'version': spec['version'],
                   'revision': str(rng.choice((1, 1, 2, 3))),
                   'platform': 'any', 'dependencies': [],
                   'build_prefix': rng.choice(W.BUILD_PREFIXES),
                   'homepage': None, 'seed': rng.randrange(100000),
                   'files': W.gen_files(rng, spec['name'], spec['version'],
                                        2), 'envvars': None}
            if old['revision'] == str(spec['revision']):
                old['revision'] = '4'
            w['universe'][W.pid_of(old)] = old
            for pids in w['repos'].values():
                pids.append(W.pid_of(old))
                pids.sort()
        return w

    def history(self, rng, state):
        for op in gen_env_history(rng, state, 3):
            yield op
        if rng.randrange(4) == 0:
            yield gen_build(rng, state.world, update=True,
                            env=self.pick_env(rng, state))

    def target(self, rng, state):
        env = None
        if rng.randrange(2):
            env = sorted(state.envs)[0]
        return {'do': 'batch', 'repo': '/srv/repo', 'env': env,
                'via': rng.choice(('api', 'cli')),
                'net': {'framing': rng.choice(('length', 'chunked')),
                        'chunk': 1000}}

    def after(self, rng, state, target, result):
        if target.get('env') and state.envs[target['env']].lost:
            target = dict(target, env=None)
        yield target
        if rng.randrange(2):
            yield target


class C16(BuildProp):
    id = 'C16'
    env = 4
    families = ('error', 'error', 'full', 'child', 'net')
    worldargs = {'formulas': (1, 3), 'packages': (1, 2), 'files': (1, 7)}

    def world(self, rng):
        w = BuildProp.world(self, rng)
        for spec in w['formulas'].values():
            if rng.randrange(6) == 0:
                spec['fails'] = rng.choice(M.BAD_SOURCES +
                                           ('truncated', 'truncated'))
        return w

    def history(self, rng, state):
        return gen_env_history(rng, state, 2)

    def target(self, rng, state):
        w = state.world
        if rng.randrange(3) == 0:
            fid = rng.choice(sorted(w['formulas']))
            return {'do': 'unarchive', 'formula': fid,
                    'target': '/srv/work/%d' % rng.randrange(3),
                    'net': {'framing': rng.choice(('length', 'chunked')),
                            'chunk': 1000}}
        return gen_build(rng, w, env=self.pick_env(rng, state))

    def after(self, rng, state, target, result):
        if target['do'] == 'unarchive':
            if rng.randrange(2):
                yield target
            return
        for op in BuildProp.after(self, rng, state, target, result):
            yield op


class C09(BuildProp):
    id = 'C09'
    env = 2
    families = ('corrupt',)

    def world(self, rng):
        w = gen_build_world(rng, formulas=(1, 4), packages=(2, 4),
                            files=(1, 3), envs=2)
        if rng.randrange(3) == 0:
            w['cache'] = '/srv/cache'
        for spec in w['formulas'].values():
            if spec['algo'] is None and rng.randrange(4):
                spec['algo'] = rng.choice(M.ALGOS)
        return w

    def history(self, rng, state):
        w = state.world
        for prefix in sorted(state.envs):
            yield {'do': 'mkenv', 'env': prefix, 'strict': False,
                   'via': 'api'}
        if rng.randrange(3) == 0:
            yield self.pick(rng, state)

    def pick(self, rng, state):
        w = state.world
        if rng.randrange(2):
            return gen_build(rng, w, env=self.pick_env(rng, state))
        name = rng.choice(sorted(w['requirement']))
        return {'do': 'checked', 'env': sorted(state.envs)[0],
                'what': w['requirement'][name],
                'repo': rng.choice(sorted(w['repos'])),
                'via': rng.choice(('api', 'cli')),
                'net': {'framing': rng.choice(('length', 'chunked')),
                        'chunk': 1000}}

    def target(self, rng, state):
        op = self.pick(rng, state)
        if rng.randrange(3) or op.get('repo') is None:
            return op
        return op

    def corruptible(self, state, target, dry):
        """Files read by the target whose checksum is known."""
        w = state.world
        paths = ['%s/%s' % ('/srv/repo', rel) for rel in
                 sorted(M.on_disk(state.machine.disk, '/srv/repo'))]
        if target['do'] == 'build':
            spec = w['formulas'][target['formula']]
            if spec['algo'] and '://' not in spec['url']:
                paths += [spec['url']] * 3
            paths += [p['url'] for p in spec['patches']
                      if p['algo'] and '://' not in p['url']]
        # mostly, those which it reads
        return paths + 6 * [p for p in paths if p in dry.opened]

    def inject(self, rng, op, dry, number):
        # downloads corrupted on the way
        op = json.loads(json.dumps(op))
        numbers = []
        for i, url in enumerate(dry.requests):
            if url.endswith('.ipkg') or self.has_algo(url):
                numbers.append(i + 1)
        if numbers:
            net = op['net'] = dict(op.get('net') or {})
            net['script'] = {str(rng.choice(numbers)): {
                'kind': 'corrupt', 'at': rng.random()}}
        return op

    def has_algo(self, url):
        for spec in self.formulas.values():
            if spec['url'] == url:
                return bool(spec['algo'])
            for patch in spec['patches']:
                if patch['url'] == url:
                    return bool(patch['algo'])
        return False

    def before(self, rng, state, target, dry):
        """Operations between the history and the faulted target."""
        self.formulas = state.world['formulas']
        paths = self.corruptible(state, target, dry)
        if state.world['cache'] and dry.requests and rng.randrange(3):
            # something downloads first, and the cache is changed afterwards
            first = json.loads(json.dumps(target))
            first['net'] = dict(first['net'], script={})
            if target['do'] == 'checked':
                others = [p for p in sorted(state.envs)
                          if p != target['env']]
                if others:
                    first['env'] = others[0]
                    yield first
            else:
                if first.get('env') and rng.randrange(2):
                    first['env'] = None
                yield first
            cached = M.cached_checked(state)
            if cached:
                paths = cached
        for _ in range(rng.choice((0, 1, 1, 1, 2))):
            if not paths:
                return
            path = rng.choice(paths)
            how = rng.choice(('flip', 'flip', 'truncate', 'append', 'empty',
                              'other'))
            op = {'do': 'tamper', 'path': path, 'how': how,
                  'at': rng.choice((0, 0.5, 0.999, rng.random()))}
            if how == 'flip':
                op['bits'] = rng.choice((1, 0x20, 0x80))
            if how == 'other':
                others = sorted(set(p for p in paths if p != path and
                                    p.endswith(path[-5:])))
                if not others:
                    continue
                op['other'] = rng.choice(others)
            yield op

    def after(self, rng, state, target, result):
        tampered = sorted(state.extra['tampered'])
        if rng.randrange(3) == 0:
            yield target
        for path in tampered:
            if path.startswith((state.world['cache'] or '/nowhere') + '/'):
                # it must disappear when it is used
                yield target
                continue
            yield {'do': 'tamper', 'how': 'restore', 'path': path}
        if target.get('env') and state.envs[target['env']].lost:
            return
        yield target


PROPS = dict((p.id, p) for p in (C09, C10, C11, C12, C13, C16))
