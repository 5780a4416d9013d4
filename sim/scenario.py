"""Plans and their execution.

A *plan* is a JSON object: a world, and a list of operations with the faults
to inject into each of them.  Executing a plan is a pure function of the plan
and of the code under test.
"""
import json
import posixpath

import envs as E
import simos
import simproc
import world as W
from machine import Machine

HARMLESS = ('net redirect',)


class State(object):
    """A machine, and what the reference says about it."""

    def clone(self):
        copy = State()
        copy.__dict__.update(self.__dict__)
        copy.machine = self.machine.clone()
        copy.envs = dict((k, v.clone()) for k, v in self.envs.items())
        copy.index = dict((k, v.clone()) for k, v in self.index.items())
        copy.extra = dict(self.extra)
        return copy


def build(world, seed):
    """The state in which every run of this world starts."""
    disk = simos.Disk()
    for path in ('/tmp', '/home/user', '/srv/pkgs', '/usr/share'):
        disk.makedirs(path)
    simproc.put_programs(disk)
    disk.put('/home/user/precious', 'do not touch\n')
    disk.put('/etc/passwd', 'root:x:0:0::/root:/bin/sh\n')
    universe = world['universe']
    pages = {}
    for base, pids in world['repos'].items():
        if '://' in base:
            pages.update(W.repository_pages(base, universe, pids))
        else:
            W.put_repository(disk, base, universe, pids,
                             world.get('indexed', True))
    for path, pid in world['paths'].items():
        data = W.package_bytes(universe[pid])
        if '://' in path:
            pages[path] = (200, {}, data)
        else:
            disk.put(path, data)
    for url, text in world.get('texts', {}).items():
        if '://' in url:
            pages[url] = (200, {}, str(text))
        else:
            disk.put(url, str(text))
    for builder in world.get('build', ()):
        BUILDERS[builder](world, disk, pages)
    environ = {}
    if world.get('cache'):
        environ['IPKG_CACHE_DIR'] = str(world['cache'])
        if world.get('cache_exists', True):
            disk.makedirs(world['cache'])
    state = State()
    state.world = world
    state.machine = Machine(disk, seed, world.get('config'), pages, environ)
    state.envs = {}
    for prefix in world['envs']:
        model = state.envs[prefix] = E.EnvModel(prefix)
        entries = world.get('user', {}).get(prefix) or []
        disk.makedirs(prefix[:prefix.rindex('/')] or '/')
        W.put_files(disk, prefix, entries)
        for entry in entries:
            model.user[entry['path']] = \
                ('l', entry['to']) if entry['kind'] == 'l' else \
                ('f', entry['mode'], W.content(entry, prefix))
        model.exists = disk.get(prefix) is not None
    state.index = {}
    state.extra = {}
    for hook in world.get('build', ()):
        if hook in STARTERS:
            STARTERS[hook](state)
    state.machine.settle()
    return state


BUILDERS = {}
STARTERS = {}
STEPS = {}
JUDGES = {}


def was_faulted(result, op):
    if result.status in ('killed', 'hung'):
        return True
    if [f for f in result.fired if f not in HARMLESS]:
        return True
    if (op.get('net') or {}).get('down') and result.requests:
        return True
    return False


class Outside(object):
    """What an operation must leave alone."""

    def __init__(self, state, allowed):
        allowed = list(allowed) + list(state.extra.get('shared', ()))
        self.allowed = [a.rstrip('/') for a in allowed]
        self.before = self.snap(state)

    def snap(self, state):
        return state.machine.disk.tree('/', self.allowed)

    def check(self, state, verb):
        after = self.snap(state)
        if after == self.before:
            return
        for path in sorted(set(after) | set(self.before)):
            a, b = self.before.get(path), after.get(path)
            if a != b and not (a and b and a[0] == b[0] == 'd'):
                what = 'created' if a is None else \
                    'removed' if b is None else 'modified'
                yield E.Violation('C19', 'outside', '%s %s %s'
                                  % (verb, what, path))


def step(state, op):
    """Execute one operation. Returns (result, violations)."""
    do = op['do']
    E.SPELLING = state.world['config'].get('spelling')
    E.DEBUG = state.world['config'].get('debug')
    if do in STEPS:
        return STEPS[do](state, op)
    if do == 'session':
        return step_session(state, op)
    return step_env(state, op)


def environment_roots(state, op):
    roots = [op['env'], '/tmp']
    if state.world.get('cache'):
        roots.append(state.world['cache'])
    return roots


def step_env(state, op):
    machine, w = state.machine, state.world
    if not op.get('power'):
        pass
    else:
        machine.settle()
    outside = Outside(state, environment_roots(state, op))
    model = state.envs[op['env']]
    before = None
    if op['do'] in ('uninstall', 'mkenv'):
        before = machine.disk.tree(op['env'])
    result = machine.run(op['do'], E.function(op), op)
    faulted = was_faulted(result, op)
    status = result.status
    found = []
    if status == 'hung':
        found.append(E.Violation('C03', 'hang', '%s does not end'
                                 % E.describe(op)))
        status = 'killed'
    power = bool(op.get('power')) and status == 'killed'
    note = ''
    if result.fired:
        note = '[%s] ' % ', '.join(result.fired)
    if result.exc is not None:
        note += '[%s] ' % result.brief()
    more, state.envs[op['env']] = E.judge(w, model, op, status, machine,
                                          note, faulted, power)
    found += more
    if before is not None and not model.lost:
        found += check_directories(w, model, op, status, before,
                                   machine.disk.tree(op['env']), note)
    found += list(outside.check(state, note + E.describe(op)))
    if power:
        machine.settle()
    return result, found


def check_directories(w, model, op, status, before, after, note):
    verb = E.describe(op)
    if op['do'] == 'mkenv' and model.exists and op.get('strict', True):
        # it exists
        changed = sorted(p for p in set(before) | set(after)
                         if before.get(p) != after.get(p))
        if changed:
            yield E.Violation('C17', 'existing-changed', '%s%s (%s), which '
                              'exists, changed %s' % (note, verb, status,
                                                      changed[0]))
    elif op['do'] == 'uninstall' and status == 'ok' and \
            op['name'] in model.installed:
        prefix = op['env']
        gone = set(prefix + '/' + p for p in
                   E.paths_of(w, model.installed[op['name']]))
        inside = {}
        for path in before:
            inside.setdefault(posixpath.dirname(path), set()).add(path)
        for directory in sorted(set(posixpath.dirname(p) for p in gone)):
            if directory != prefix and directory in after and \
               directory in inside and inside[directory] <= gone:
                yield E.Violation('C04', 'empty-directory', '%safter %s '
                                  'succeeded, %s is still there, empty'
                                  % (note, verb, directory))


def step_session(state, op):
    machine, w = state.machine, state.world
    outside = Outside(state, environment_roots(state, op))
    result = machine.run('session', E.function(op), op)
    log = op.pop('_log')
    result.marks = [e['step'] for e in log if e['op']['do'] == 'free']
    found = []
    faulted = was_faulted(result, op)
    final = machine.disk
    fired_acts = 0
    for number, entry in enumerate(log):
        one = dict(entry['op'], env=op['env'])
        if one['do'] == 'free':
            continue
        if one['do'] == 'exec':
            found += JUDGES['exec'](state, op, one, entry, result, log)
            continue
        disk = entry.get('disk')
        machine.disk = final if disk is None else disk
        model = state.envs[op['env']]
        # once the disk is free again nothing can go wrong
        clean = not faulted or one.get('after_faults')
        note = '[same program] [%s] ' % ', '.join(result.fired)
        if entry['exc']:
            note += '[%s] ' % entry['exc']
        more, after = E.judge(w, model, one, entry['status'], machine, note,
                              not clean)
        found += more
        state.envs[op['env']] = after
        for name, pid in model.installed.items():
            if after.installed.get(name) != pid or name in after.tainted:
                op['_dropped'] = True
        if disk is not None and not after.lost and 'memory' in entry:
            if entry['memory'] != after.installed:
                found.append(E.Violation(
                    'C03', 'memory', '%safter %s (%s) the program lists %s, '
                    'others %s' % (note, E.describe(one), entry['status'],
                                   sorted(entry['memory'].values()),
                                   sorted(after.installed.values()))))
            config = dict((k, v) for k, v in entry['config'].items())
            if config != after.config:
                found.append(E.Violation(
                    'C03', 'memory-config', '%safter %s (%s) the program has '
                    '%r, others %r' % (note, E.describe(one),
                                       entry['status'], config,
                                       after.config)))
    machine.disk = final
    found += list(outside.check(state, 'session'))
    return result, found


def step_damaged(state, op):
    """A command while something else damaged the record of its environment:
    it must refuse to go on."""
    machine = state.machine
    prefix = op['env']
    path = prefix + '/' + W.META_FILE
    one = dict(op['op'], env=prefix)
    node = machine.disk.get(path)
    if node is None or len(node.data) < 3:
        return machine.run('nothing', lambda: None, {}), []
    original = str(node.data)
    cut = 1 + int(op['at'] * (len(original) - 2))
    if op['how'] == 'truncate':
        data = original[:cut]
    elif op['how'] == 'zeros':
        data = original[:cut] + '\0' * (len(original) - cut)
    else:
        data = original + original[:cut]
    machine.disk.put(path, data)
    before = machine.disk.tree(prefix)
    result = machine.run(one['do'], E.function(one), one)
    found = []
    verb = E.describe(one)
    if result.status == 'ok':
        found.append(E.Violation('C01', 'damaged-record-used', '%s succeeded '
                                 'although the record cannot be read' % verb))
    after = machine.disk.tree(prefix)
    changed = sorted(p for p in set(before) | set(after)
                     if before.get(p) != after.get(p))
    if changed:
        found.append(E.Violation('C01', 'damaged-record-ignored', '%s (%s) '
                                 'changed %s although the record cannot be '
                                 'read' % (verb, result.status, changed[0])))
    machine.disk.put(path, original)
    return result, found


STEPS['damaged'] = step_damaged


# -- faults

ERRNOS = ('EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EROFS', 'EDQUOT')
WEIGHT = {'creat': 4, 'trunc': 4, 'write': 4, 'rename': 6, 'unlink': 3,
          'mkdir': 2, 'rmdir': 2, 'fsync': 4, 'symlink': 3, 'link': 3,
          'read': 2, 'open': 2, 'listdir': 2, 'exec': 3, 'readlink': 1,
          'chmod': 1, 'chown': 0.2, 'utime': 0.2, 'stat': 0.3, 'net': 0.5}


def pick_step(rng, kinds, among=None):
    """A step number, with a preference for those which change something."""
    places = {}
    for i, kind in enumerate(kinds):
        if among is None or kind in among:
            places.setdefault(kind, []).append(i + 1)
    if not places:
        return None
    weights = [(kind, WEIGHT.get(kind, 0.5) * min(len(places[kind]), 5))
               for kind in sorted(places)]
    pick = rng.random() * sum(weight for _, weight in weights)
    for kind, weight in weights:
        pick -= weight
        if pick <= 0:
            break
    return rng.choice(places[kind])


def gen_fault(rng, family, kinds):
    """One fault for an operation which took the steps ``kinds``."""
    if family == 'kill':
        at = pick_step(rng, kinds)
        if at is None:
            return None
        return {'at': at, 'kind': 'kill', 'part': rng.choice((0, 0.3, 0.7))}
    if family == 'error':
        at = pick_step(rng, kinds, simos.FAILABLE)
        if at is None:
            return None
        return {'at': at, 'kind': 'error', 'errno': rng.choice(
            ('EIO', 'EIO', 'ENOSPC', 'EACCES', 'EMFILE')),
            'part': rng.choice((0, 0.5))}
    if family == 'full':
        at = pick_step(rng, kinds, simos.ALLOCATING)
        if at is None:
            return None
        return {'at': at, 'kind': 'full', 'part': rng.choice((0, 0.5))}
    raise ValueError(family)


def gen_net(rng, requests):
    """Network faults for an operation making so many requests."""
    script = {}
    for _ in range(rng.choice((1, 1, 2))):
        number = rng.randrange(1, max(1, requests) + 1)
        kind = rng.choice(('refused', 'dns', 'connect_timeout', 'status',
                           'truncate', 'truncate', 'truncate', 'reset',
                           'reset', 'stall', 'redirect'))
        fault = {'kind': kind}
        if kind == 'status':
            fault['code'] = rng.choice((404, 500, 503, 403, 410, 502, 429))
        elif kind in ('truncate', 'reset', 'stall'):
            fault['at'] = rng.choice((0.0, 0.01, 0.3, 0.5, 0.9, 0.999,
                                      rng.random()))
            fault['late'] = rng.randrange(2)
        script[str(number)] = fault
    return script


def gen_power(rng, kinds):
    at = pick_step(rng, kinds)
    if at is None:
        return None
    return {'at': at, 'keep': rng.randrange(0, at + 1),
            'seed': rng.randrange(100000)}


def inject(rng, op, dry, families):
    """A copy of ``op`` with one or two faults of these families."""
    op = json.loads(json.dumps(op))
    family = rng.choice(families)
    if family == 'power':
        op['power'] = gen_power(rng, dry.kinds)
    elif family == 'net':
        if not dry.requests:
            return op
        net = op['net'] = dict(op.get('net') or {})
        net['script'] = gen_net(rng, len(dry.requests))
    elif family == 'child':
        if not dry.children:
            return op
        number = rng.randrange(1, len(dry.children) + 1)
        when = rng.choice(('start', 'after'))
        op['fates'] = {str(number): {
            'when': when, 'code': rng.choice((1, 2, 127, -9, -11, 77)),
            'after': rng.randrange(0, 4)}}
    else:
        faults = []
        fault = gen_fault(rng, family, dry.kinds)
        if fault is not None:
            faults.append(fault)
            if family == 'error' and rng.randrange(4) == 0:
                other = gen_fault(rng, 'error', dry.kinds[fault['at']:])
                if other is not None:
                    other['at'] += fault['at']
                    faults.append(other)
        op['faults'] = faults
    return op


# -- questions to a repository

def split_query(requirement):
    """(platform or None, name, terms)"""
    platform = None
    if ':' in requirement:
        platform, requirement = requirement.split(':', 1)
    return (platform,) + W.split_requirement(requirement.strip())


def platforms_match(a, b):
    parts = [['any'] * 3 if p == 'any' else p.split('-') for p in (a, b)]
    return all('any' in pair or pair[0] == pair[1] for pair in zip(*parts))


def answers(universe, pids, requirement):
    """(version, revision) of what satisfies it, most recent first."""
    platform, name, terms = split_query(requirement)
    found = []
    for pid in pids:
        spec = universe[pid]
        if spec['name'] == name and \
           platforms_match(spec['platform'], platform or W.PLATFORM) and \
           all(W.COMPARE[form](W.version_key(spec['version']),
                               W.version_key(version))
               for form, version in terms):
            found.append((W.version_key(spec['version']),
                          int(spec['revision']), spec['version'],
                          spec['revision']))
    return [f[2:] for f in sorted(found, reverse=True)]


def contradictory(requirement):
    """Whether ipkg may refuse it."""
    terms = split_query(requirement)[2]
    equal = set(v for form, v in terms if form == '==')
    if equal:
        return len(equal) > 1 or len([t for t in terms if t[0] != '!=' and
                                      t[0] != '==']) > 0
    low = [(W.version_key(v), form) for form, v in terms if form[0] == '>']
    high = [(W.version_key(v), form) for form, v in terms if form[0] == '<']
    return any(a > b or a == b and (f, g) != ('>=', '<=')
               for a, f in low for b, g in high)


def gen_query(rng, universe):
    names = sorted(set(s['name'] for s in universe.values()))
    name = rng.choice(names + ['nothing', names[0] + 'x', names[0][:-1]])
    platform = rng.choice(('',) * 12 + (
        W.PLATFORM + ':', 'any:', 'debian-any-x86_64:', 'osx-10.9-x86_64:',
        'osx-any-any:', 'debian-7.3-x86_64:', 'any-7.2-any:'))
    terms = []
    versions = sorted(set(s['version'] for s in universe.values()
                          if s['name'] == name)) or W.VERSIONS
    shape = rng.randrange(8)
    count = rng.choice((0, 1, 1, 2, 2, 3, 4))
    for _ in range(count):
        form = rng.choice(('!=',) if shape < 2 else ('<', '<=') if shape == 2
                          else ('>', '>=') if shape == 3 else ('==',)
                          if shape == 4 else
                          ('>', '>=', '<', '<=', '!=', '!='))
        terms.append(rng.choice((form, form, ' %s ' % form)) +
                     rng.choice(versions + rng.sample(W.VERSIONS, 1)))
    return platform + name + rng.choice((',', ',', ', ', ' , ')).join(terms)


def step_query(state, op):
    machine, w = state.machine, state.world
    base = op['repo']
    pids = w['repos'][base]
    outside = Outside(state, [])

    def func():
        from ipkg.repositories import PackageRepository
        from ipkg.exceptions import IpkgException
        repository = PackageRepository(base)
        result = []
        for requirement in op['what']:
            try:
                many = [(str(p.name), str(p.version), str(p.revision))
                        for p in repository.find(requirement)]
            except IpkgException:
                many = None
            try:
                one = repository[requirement]
                one = str(one.name), str(one.version), str(one.revision)
            except IpkgException:
                one = None
            result.append((many, one))
        return result
    result = machine.run('query', func, op)
    found = []

    def report(klass, detail):
        found.append(E.Violation('C06', klass, 'in %s, %s' % (base, detail)))
    if result.status != 'ok':
        if not was_faulted(result, op):
            report('query-failed', 'looking for %s failed: %s' % (
                op['what'], result.brief()))
        return result, found
    for requirement, (many, one) in zip(op['what'], result.value):
        name = split_query(requirement)[1]
        wanted = [(name,) + a for a in answers(w['universe'], pids,
                                               requirement)]
        if contradictory(requirement):
            if many or one:
                report('query-contradictory', '%r gives %s' % (
                    requirement, many or one))
        elif many is None:
            report('query-refused', '%r cannot be asked for' % requirement)
        elif many != wanted:
            report('query-wrong', '%r gives %s instead of %s' % (
                requirement, many, wanted))
        elif one != (wanted or [None])[0]:
            report('query-not-first', '%r is %s instead of %s' % (
                requirement, one, (wanted or [None])[0]))
    found.extend(outside.check(state, 'querying ' + base))
    return result, found


STEPS['query'] = step_query
