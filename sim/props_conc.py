"""Workloads about using environments and about running together (C14, C15,
C18)."""
import json

import making as M
import props_build
import props_env
import props_fetch
import scenario
import using
import world as W

TOOLS = ('tool', 'other-tool', 'mytool')
VALUES = ('x', '', 'a b', '50%', '%(prefix)s', 'a=b', '/usr/local/bin:/bin',
          '$HOME')


def put_programs(rng, w):
    """Programs to run: in the system, and in environments."""
    w['programs'] = programs = {'/bin/bash': (0, 0755)}
    for name in TOOLS:
        if rng.randrange(4):
            programs['/usr/bin/' + name] = (rng.choice((0, 0, 0, 3)), 0755)
        if rng.randrange(4) == 0:
            programs['/bin/' + name] = (rng.choice((0, 1)),
                                        rng.choice((0755, 0644)))
    if rng.randrange(3) == 0:
        programs['/bin/zsh'] = (0, 0755)
    w['build'] = list(w.get('build', ())) + ['using']


def env_programs(rng, w):
    for prefix in w['envs']:
        entries = w['user'].setdefault(prefix, [])
        have = set(e['path'] for e in entries)
        for name in TOOLS[:2]:
            path = rng.choice(('bin/', 'sbin/')) + name
            if rng.randrange(3) == 0 and path not in have:
                entries.append({'path': path, 'kind': 'f', 'what': 'probe',
                                'code': rng.choice((0, 0, 0, 5)), 'seed': 0,
                                'mode': rng.choice((0755, 0755, 0644))})
    for spec in w['universe'].values():
        if rng.randrange(3) == 0:
            spec['files'].append({
                'path': 'bin/%s-run' % spec['name'], 'kind': 'f',
                'what': 'probe', 'code': rng.choice((0, 0, 7)),
                'mode': 0755, 'seed': 0})


def gen_environ(rng, w, prefix):
    """Variables of the caller, different from the usual ones."""
    environ = {}
    other = rng.choice((prefix, '/other/env'))
    if rng.randrange(3) == 0:
        environ['PATH'] = rng.choice((
            '/usr/bin:/bin', '/bin:/usr/bin', '%s/sbin:%s/bin:/usr/bin:/bin'
            % (other, other), '/usr/bin:%s/bin:/bin' % other, '/usr/bin'))
    if rng.randrange(3) == 0:
        environ['MANPATH'] = rng.choice(('/usr/man', '/a:/b',
                                         other + '/share/man:/c'))
    for name in ('C_INCLUDE_PATH', 'LD_LIBRARY_PATH', 'PKG_CONFIG_PATH'):
        if rng.randrange(4) == 0:
            environ[name] = rng.choice(('/opt/x', '/opt/x:/opt/y',
                                        other + '/lib:/z'))
    for name in ('EDITOR', 'A_B', 'TMPDIR', 'PS1', 'HOME', 'SHELL'):
        if rng.randrange(6) == 0:
            environ[name] = rng.choice(VALUES)
    if rng.randrange(6) == 0:
        environ['IPKG_ENVIRONMENT'] = other
    names = sorted(set(name for spec in w['universe'].values()
                       for name in spec['envvars'] or ()))
    if names and rng.randrange(3) == 0:
        # what packages also set
        environ[rng.choice(names)] = 'of the caller'
    return environ


def gen_use(rng, w, prefix, how=None, steady=False):
    """``steady``: only programs which nobody adds nor removes."""
    how = how or rng.choice(('exec', 'exec', 'exec', 'shell', 'printenv',
                             'list', 'config'))
    op = {'do': 'use', 'how': how, 'env': prefix,
          'via': rng.choice(('api', 'cli'))}
    if rng.randrange(2):
        op['environ'] = gen_environ(rng, w, prefix)
    if how == 'shell':
        op['via'] = 'cli'
        if rng.randrange(2):
            op['command'] = rng.choice((['/bin/zsh'], ['/bin/bash', '-l']))
    elif how == 'exec':
        name = rng.choice(TOOLS)
        commands = [['/usr/bin/' + name]]
        if not steady:
            commands += [[name], [name], ['no-such-program'],
                         ['/bin/' + name], [prefix + '/bin/' + name]]
            commands += [['%s-run' % spec['name']] for pid, spec in
                         sorted(w['universe'].items())][:2]
        there = [[path] for path, (code, mode) in sorted(
            w['programs'].items()) if '/usr/bin/' in path and not code]
        if there and rng.randrange(2):
            commands = there if steady else \
                there + [[c[0].split('/')[-1]] for c in there]
        op['command'] = rng.choice(commands) + rng.choice(
            ([], [], ['arg'], ['two words', 'x=y'], ['', 'z']))
        if op['via'] == 'api':
            if rng.randrange(4) == 0:
                op['data'] = 'some input\n'
            if rng.randrange(4) == 0:
                op['cwd'] = rng.choice(('/', '/srv/pkgs', '/nowhere'))
            if rng.randrange(3) == 0:
                op['pipe'] = True
            if not [a for a in op['command'] if ' ' in a or not a] and \
               rng.randrange(4) == 0:
                op['string'] = True
    elif how == 'config':
        op['key'] = rng.choice(('repository', 'color', 'x', 'never'))
    elif how == 'printenv':
        op['export'] = bool(rng.randrange(2))
    if how in ('list', 'config') and op['via'] == 'cli' and \
       rng.randrange(3) == 0:
        op['current'] = True
        op['environ'] = dict(op.get('environ') or {},
                             IPKG_ENVIRONMENT=prefix)
    return op


class C15(props_env.EnvProp):
    id = 'C15'
    families = ('child', 'child', 'error', 'error', 'kill')

    def world(self, rng):
        w = props_env.gen_world(rng, files=(1, 3),
                                envs=rng.choice((1, 1, 2)))
        put_programs(rng, w)
        env_programs(rng, w)
        return w

    def target(self, rng, state):
        prefix = rng.choice(sorted(state.envs))
        what = rng.randrange(6)
        if what == 0:
            return self.gen_session(rng, state, prefix)
        if what == 1:
            return self.pick(rng, state, prefix, self.mix)
        return gen_use(rng, state.world, prefix)

    def gen_session(self, rng, state, prefix):
        acts = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            op = props_env.gen_install(rng, state.world, prefix, via='api')
            acts.append(dict((k, v) for k, v in op.items() if k != 'via'))
        acts.insert(rng.randrange(len(acts) + 1), self.gen_exec(rng, state))
        acts.append(self.gen_exec(rng, state))
        op = {'do': 'session', 'env': prefix, 'acts': acts}
        if rng.randrange(3) == 0:
            op['environ'] = gen_environ(rng, state.world, prefix)
        return op

    def gen_exec(self, rng, state):
        return {'do': 'exec', 'command': ['/usr/bin/' + rng.choice(TOOLS)]}

    def inject(self, rng, op, dry, number):
        families = [f for f in self.families
                    if f != 'child' or dry.children]
        return scenario.inject(rng, op, dry, families)

    def after(self, rng, state, target, result):
        prefix = target['env']
        if target['do'] == 'use' and rng.randrange(2):
            yield target
        for _ in range(rng.choice((1, 2))):
            yield gen_use(rng, state.world, prefix)


def gen_parts_schedule(rng, op, dry, families):
    """A copy of ``op`` with a schedule, and sometimes a fault."""
    op = json.loads(json.dumps(op))
    lengths = [len(r.kinds) for r in dry.parts]
    op['schedule'] = props_fetch.gen_schedule(rng, lengths)
    family = rng.choice(families)
    if family is None:
        return op
    which = rng.choice(op.get('hit') or range(len(lengths)))
    part = op['parts'][which]
    if family == 'child':
        children = dry.parts[which].children
        if children:
            part['fates'] = {str(rng.randrange(1, len(children) + 1)): {
                'when': rng.choice(('start', 'after')),
                'code': rng.choice((1, 2, -9)), 'after': rng.randrange(3)}}
        return op
    fault = scenario.gen_fault(rng, family, dry.parts[which].kinds)
    part['faults'] = [fault] if fault else []
    return op


class Concurrent(object):
    families = (None, None, None, 'kill', 'error', 'full')

    def inject(self, rng, op, dry, number):
        return gen_parts_schedule(rng, op, dry, self.families)

    def retry(self, rng, target, result):
        """The parts which did not work, alone."""
        for part, one in zip(target['parts'], result.parts):
            if one.status != 'ok' or rng.randrange(4) == 0:
                yield dict((k, v) for k, v in part.items()
                           if k not in ('faults', 'fates'))


class C14(Concurrent):
    id = 'C14'

    def world(self, rng):
        self.kind = rng.choice(('env', 'env', 'repo'))
        if self.kind == 'env':
            w = props_env.gen_world(rng, files=(1, 3))
        else:
            w = props_build.gen_build_world(
                rng, formulas=(1, 3), files=(1, 3), remote=False,
                envs=2)
        w['kind'] = self.kind
        put_programs(rng, w)
        for name in TOOLS:
            w['programs']['/usr/bin/' + name] = 0, 0755
        return w

    def history(self, rng, state):
        w = state.world
        if w['kind'] == 'env' and rng.randrange(3) == 0:
            # nothing recorded yet
            for prefix in sorted(state.envs):
                yield {'do': 'mkenv', 'env': prefix, 'strict': False,
                       'via': 'api'}
            return
        if w['kind'] == 'env':
            for op in props_env.EnvProp().history(rng, state):
                yield op
            return
        for op in props_build.gen_env_history(rng, state, 2):
            yield op
        for _ in range(rng.choice((0, 0, 1))):
            yield props_build.gen_build(rng, w, update=True, via='api')

    def target(self, rng, state):
        w = state.world
        if w['kind'] == 'repo':
            return self.repo_target(rng, state)
        prefix = sorted(state.envs)[0]
        writer = props_env.EnvProp().pick(
            rng, state, prefix, ('install', 'install', 'upgrade', 'uninstall',
                                 'config'))
        net = writer.pop('net', None)
        parts = [writer]
        for _ in range(rng.choice((1, 1, 2))):
            parts.append(gen_use(rng, w, prefix, rng.choice(
                (None, None, 'list', 'config', 'printenv')), steady=True))
        for part in parts:
            # one interpreter parses all the command lines
            if part['do'] == 'use' and part['how'] != 'shell' and \
               not part.get('current') and rng.randrange(2):
                part['via'] = 'api'
        return {'do': 'together', 'parts': parts, 'also': ['C14'],
                'net': net, 'hit': [0]}

    def repo_target(self, rng, state):
        w = state.world
        if rng.randrange(3) == 0:
            writer = {'do': 'mkrepo', 'repo': '/srv/repo', 'via': 'api'}
        else:
            writer = props_build.gen_build(rng, w, update=True, via='api')
        parts = [writer]
        prefixes = sorted(state.envs)
        for _ in range(rng.choice((1, 1, 2))):
            what = rng.choice(('find', 'install'))
            if what == 'find' or not prefixes:
                parts.append({'do': 'use', 'how': 'find',
                              'repo': '/srv/repo'})
            else:
                name = rng.choice(sorted(w['requirement']))
                parts.append({'do': 'install', 'env': prefixes.pop(),
                              'what': w['requirement'][name],
                              'repo': '/srv/repo', 'via': 'api'})
        return {'do': 'together', 'parts': parts, 'also': ['C14'],
                'net': writer.pop('net', None), 'hit': [0]}

    def after(self, rng, state, target, result):
        for op in self.retry(rng, target, result):
            yield op


class C18(Concurrent):
    id = 'C18'
    families = (None, None, None, 'kill', 'error', 'full', 'child')

    def world(self, rng):
        count = rng.choice((2, 2, 3))
        if rng.randrange(2):
            w = props_env.gen_world(rng, files=(1, 4), envs=count)
        else:
            w = props_build.gen_build_world(rng, formulas=(1, 3),
                                            files=(1, 4), envs=count)
        put_programs(rng, w)
        if rng.randrange(2):
            w['cache'] = '/srv/cache'
        return w

    def history(self, rng, state):
        if state.world.get('formulas'):
            return props_build.gen_env_history(rng, state, 2)
        return props_env.EnvProp().history(rng, state)

    def target(self, rng, state):
        w = state.world
        prefixes = sorted(state.envs)
        rng.shuffle(prefixes)
        parts = []
        net = {'framing': rng.choice(('length', 'chunked')), 'chunk': 700}
        for number, prefix in enumerate(prefixes):
            if w.get('formulas') and rng.randrange(3):
                op = props_build.gen_build(
                    rng, w, update=False, via='api',
                    env=rng.choice((None, prefix)))
                op['dir'] = '/srv/out%d' % number
                op.pop('try', None)
            elif w.get('formulas'):
                op = {'do': 'install', 'env': prefix, 'via': 'api',
                      'what': w['requirement'][rng.choice(
                          sorted(w['requirement']))],
                      'repo': rng.choice(sorted(w['repos']))}
            else:
                what = rng.randrange(6)
                if what == 0:
                    op = gen_use(rng, w, prefix, steady=True)
                elif what == 1:
                    op = {'do': 'mkenv', 'env': prefix, 'strict': False,
                          'via': 'api'}
                else:
                    op = props_env.EnvProp().pick(
                        rng, state, prefix, ('install', 'install', 'upgrade',
                                             'uninstall', 'config'))
            op.pop('net', None)
            parts.append(op)
        same = [p for p in parts if p['do'] == 'install']
        if len(same) > 1 and rng.randrange(2):
            # the same package
            for part in same[1:]:
                for key in ('what', 'repo'):
                    part.pop(key, None)
                    if key in same[0]:
                        part[key] = same[0][key]
                if '://' in part['what']:
                    # the command line does not take these
                    part['via'] = 'api'
        return {'do': 'together', 'parts': parts, 'also': ['C18'],
                'net': net}

    def after(self, rng, state, target, result):
        for op in self.retry(rng, target, result):
            yield op


PROPS = dict((p.id, p) for p in (C14, C15, C18))
