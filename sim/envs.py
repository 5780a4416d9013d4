"""Environments: the operations on them, and what must be true afterwards.

``EnvModel`` is the reference: what an environment must contain.  ``judge``
compares it with what a new process finds on the surviving disk after each
operation, and follows what interrupted operations legitimately left.
"""
import posixpath

import seams
import world as W

Q = lambda path: posixpath.dirname(path)


class Violation(object):
    def __init__(self, prop, klass, detail):
        self.prop = prop
        self.klass = klass
        self.detail = detail

    def __repr__(self):
        return '%s/%s: %s' % (self.prop, self.klass, self.detail)


class EnvModel(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.installed = {}     # name: pid
        self.config = {}
        self.tainted = set()    # listed, but their removal had begun
        self.loose = set()      # paths interrupted operations may have left
        self.user = {}          # files of the user: never touched
        self.exists = False
        self.lost = False       # the record cannot be read: nothing to check
        self.broken = False     # and nothing went wrong

    def clone(self):
        copy = EnvModel(self.prefix)
        copy.installed = dict(self.installed)
        copy.config = dict(self.config)
        copy.tainted = set(self.tainted)
        copy.loose = set(self.loose)
        copy.user = self.user
        copy.exists = self.exists
        copy.lost = self.lost
        copy.broken = self.broken
        return copy


class Unresolved(Exception):
    pass


def resolve(w, what, repo):
    """The package which ``what`` designates."""
    pid = w['paths'].get(what)
    if pid is not None:
        return pid
    if repo is None:
        return None
    return W.best(w['universe'], w['repos'].get(repo, ()), what)


def plan_install(w, installed, what, repo):
    """Returns (steps, complete): what installing ``what`` does, in order."""
    steps = []
    state = dict(installed)
    universe = w['universe']

    def visit(what):
        pid = resolve(w, what, repo)
        if pid is None:
            raise Unresolved(what)
        spec = universe[pid]
        name = spec['name']
        current = state.get(name)
        if current == pid:
            return
        if current is not None:
            steps.append(('remove', current))
            del state[name]
        for dependency in spec['dependencies']:
            if dependency not in state:
                visit(dependency)
        steps.append(('add', pid))
        state[name] = pid
    try:
        visit(what)
    except Unresolved:
        return steps, False
    return steps, True


def targets(w, what, repo, seen=None):
    """Names which installing ``what`` may legitimately touch."""
    seen = set() if seen is None else seen
    pid = resolve(w, what, repo)
    if pid is None or pid in seen:
        return seen
    seen.add(pid)
    for dependency in w['universe'][pid]['dependencies']:
        targets(w, dependency, repo, seen)
    return seen


# -- operations: functions run as a process

SPELLING = None     # how the paths given to ipkg are written
DEBUG = False       # whether commands are given --debug


def spell(path, file=False):
    """Another way to write this path: what users type."""
    if '://' in path or not SPELLING or not path.startswith('/'):
        return path
    if SPELLING == 'slash':
        return path if file else path + '/'
    if SPELLING == 'relative':
        return posixpath.relpath(path, '/home/user')
    return '/tmp/..' + path


def act(op, env=None):
    """Perform one operation through the API. ``env``: reuse this object."""
    from ipkg.environments import Environment
    from ipkg.repositories import PackageRepository
    from ipkg.packages import PackageFile
    do = op['do']
    if env is None:
        env = Environment(spell(op['env']))
    if do == 'mkenv':
        env.directories.create(op.get('strict', True))
    elif do == 'install':
        repo = PackageRepository(op['repo']) if op.get('repo') else None
        what = op['what']
        if '://' in what:
            what = PackageFile(what)
        env.install(what, repo)
    elif do == 'uninstall':
        env.uninstall(op['name'])
    elif do == 'config':
        env.set_config(op['key'], op['value'])
    elif do == 'cleanup':
        env.cleanup_tmpdir()
    elif do == 'mktmp':
        env.mktmpdir()
    elif do == 'exec':
        env.execute(op['command'])
    elif do == 'free':
        seams.KERNEL.cur.full = False
    else:
        raise ValueError(do)


def argv(op):
    """The command line of the same operation."""
    do = op['do']
    if do == 'mkenv':
        words = ['mkenv', spell(op['env'])]
        if op.get('repo'):
            words[1:1] = ['-r', spell(op['repo'])]
        if op.get('requirements'):
            words[1:1] = ['-R', spell(op['requirements'], True)]
        return words
    if do == 'install':
        words = ['install']
        if not op.get('current'):
            words += ['-e', spell(op['env'])]
        if op.get('repo'):
            words += ['-r', spell(op['repo'])]
        return words + [spell(op['what'], True)]
    if do == 'uninstall':
        return ['uninstall', '-e', spell(op['env']), op['name']]
    if do == 'config':
        return ['config:set', '-e', spell(op['env']), op['key'], op['value']]
    raise ValueError(do)


def cli(words):
    import sys
    from ipkg.cli import ipkg
    sys.argv = ['ipkg'] + (['--debug'] if DEBUG else []) + list(words)
    ipkg()


def memory(env):
    """What the environment object says is installed."""
    return dict((p.name, '%s==%s:%s' % (p.name, p.version, p.revision))
                for p in env.packages)


def session(op, log):
    """Several operations by one program, which survives their failures."""
    env = None
    for one in op['acts']:
        entry = {'op': one, 'status': 'killed', 'exc': None,
                 'step': seams.KERNEL.cur.step,
                 'execs': len(seams.KERNEL.exec_log)}
        log.append(entry)
        try:
            if env is None:
                from ipkg.environments import Environment
                env = Environment(spell(op['env']))
            act(dict(one, env=op['env']), env)
            entry['status'] = 'ok'
        except Exception, exc:
            entry['status'] = 'error'
            entry['exc'] = '%s: %s' % (type(exc).__name__, exc)
        entry['end'] = len(seams.KERNEL.exec_log)
        if env is not None:
            entry['memory'] = memory(env)
            entry['config'] = dict(env.meta['config'])
        entry['disk'] = seams.KERNEL.disk.clone()


def function(op):
    if op['do'] == 'session':
        log = op['_log'] = []
        return lambda: session(op, log)
    if op.get('via') == 'cli':
        return lambda: cli(argv(op))
    return lambda: act(op)


# -- observation

class View(object):
    """What a new process finds in an environment."""

    def __init__(self):
        self.error = None
        self.metas = None
        self.packages = None    # name: pid
        self.config = None


def look(machine, prefix, keys=()):
    def observer():
        from ipkg.environments import Environment
        env = Environment(prefix)
        metas = [dict(p.meta) for p in env.packages]
        return metas, dict((k, env.get_config(k)) for k in keys)
    result = machine.peek(observer)
    view = View()
    if not result.ok:
        view.error = result.brief()
        return view
    metas, config = result.value
    try:
        view.metas = dict((m['name'], m) for m in metas)
        if len(view.metas) != len(metas):
            view.error = 'a package is listed twice'
            return view
        view.packages = dict(
            (m['name'], '%s==%s:%s' % (m['name'], m['version'],
                                       m['revision'])) for m in metas)
    except (KeyError, TypeError), exc:
        view.error = 'incomplete record: %r' % exc
        return view
    view.config = dict((k, v) for k, v in config.items() if v is not None)
    return view


def files_of(disk, prefix):
    """{relative path: entry}, without directories nor the record."""
    result = {}
    cut = len(prefix) + 1
    for path, entry in disk.tree(prefix).items():
        rel = path[cut:]
        if entry[0] == 'd' or rel.startswith('.ipkg'):
            continue
        result[rel] = entry
    return result


def same_meta(found, spec):
    """Is this record exactly the meta data of the package?"""
    want = W.package_meta(spec)
    for key, value in want.items():
        if key == 'files':
            if sorted(found.get(key) or ()) != sorted(value):
                return 'files'
        elif found.get(key) != value:
            return key
    return None


def compare(w, prefix, expected, loose, tree):
    """Yields (path, problem, owner pid or 'user' or None)."""
    for path, (owner, entry) in sorted(expected.items()):
        found = tree.get(path)
        if found is None:
            yield path, 'missing', owner
        elif found[0] != entry[0]:
            yield path, 'is a %s' % found[0], owner
        elif found != entry:
            if found[-1] != entry[-1]:
                yield path, 'has another content', owner
            else:
                yield path, 'has mode %o instead of %o' % (found[1],
                                                           entry[1]), owner
    for path in sorted(tree):
        if path not in expected and path not in loose:
            yield path, 'unexpected', None


_files = {}


def package_files(w, pid, prefix):
    key = (id(w), pid, prefix)
    if key not in _files:
        if len(_files) > 500:
            _files.clear()
        _files[key] = W.installed_files(w['universe'][pid], prefix), w
    return _files[key][0]


def paths_of(w, pid):
    return set(e['path'] for e in w['universe'][pid]['files'])


def judge(w, model, op, status, machine, note='', faulted=True, power=False,
          peaceful=False):
    """Check an environment after ``op``; returns (violations, new model).

    ``status``: 'ok', 'error' or 'killed'.  ``faulted``: something was
    injected (or already broken), so that failing was legitimate.
    """
    found = []
    universe = w['universe']
    prefix = model.prefix
    new = model.clone()
    do = op['do']

    def report(props, klass, detail):
        for prop in props.split():
            found.append(Violation(prop, klass, '%s%s' % (note, detail)))

    if model.lost:
        return found, new

    # What the operation was to do
    steps, complete = [], True
    config = {}
    if do == 'install':
        steps, complete = plan_install(w, model.installed, op['what'],
                                       op.get('repo'))
    elif do == 'uninstall':
        if op['name'] in model.installed:
            steps = [('remove', model.installed[op['name']])]
        else:
            complete = False
    elif do == 'config':
        config = {op['key']: op['value']}
    elif do == 'mkenv':
        if model.exists and op.get('strict', True):
            complete = False
        else:
            installed = dict(model.installed)
            for line in op.get('lines') or ():
                more, complete = plan_install(w, installed, line,
                                              op.get('repo'))
                steps += more
                apply_steps(universe, installed, more)
                if not complete:
                    break

    final = dict(model.installed)
    apply_steps(universe, final, steps)
    added = [pid for what, pid in steps if what == 'add']
    removed = [pid for what, pid in steps if what == 'remove']
    upgrade = do == 'install' and bool(removed)
    deep = do in ('install', 'mkenv') and len(added) > 1
    involved = set(universe[pid]['name'] for pid in added + removed)
    verb = describe(op)

    def props(*more):
        """The properties about this operation."""
        which = list(more)
        if do == 'uninstall':
            which.append('C04')
        if upgrade:
            which.append('C05')
        if deep:
            which.append('C06')
        if do in ('mkenv', 'cleanup', 'mktmp'):
            which.append('C17')
        return ' '.join(which)

    # It must not fail without a reason, nor succeed without having worked
    if not faulted and complete and status != 'ok':
        # what an interrupted command left must not prevent it
        left = ' C02' if do == 'install' and model.loose else ''
        report(props('C03' + left), 'failed-without-fault',
               '%s failed although nothing went wrong' % verb)
    if status == 'ok' and not complete:
        klass = 'success-unresolved'
        if do == 'install':
            report('C06 C03', klass, '%s succeeded although a package it '
                   'needs cannot be found' % verb)
        elif do == 'mkenv':
            report('C17 C03', klass, '%s succeeded although it exists or '
                   'a requirement cannot be found' % verb)
        elif do == 'uninstall':
            report('C03 C04', klass, '%s succeeded, it was not installed'
                   % verb)

    # The record
    keys = set(model.config) | set(config) | set(['never-set'])
    view = look(machine, prefix, keys)
    if view.error is not None:
        report(props('C01'), 'record-unreadable',
               'after %s (%s) the environment cannot be read: %s'
               % (verb, status, view.error))
        if status == 'ok':
            report('C03', 'ack-lost', 'after %s succeeded the environment '
                   'cannot be read: %s' % (verb, view.error))
        new.lost = True
        new.broken = not faulted
        return found, new

    listed = view.packages
    for name, pid in sorted(listed.items()):
        if pid not in universe:
            report('C01', 'record-unknown-package',
                   'after %s, %s is listed' % (verb, pid))
            new.lost = True
            continue
        wrong = same_meta(view.metas[name], universe[pid])
        if wrong:
            report('C01', 'record-wrong-meta', 'after %s, %r of %s is %r'
                   % (verb, wrong, pid, view.metas[name].get(wrong)))
    if new.lost:
        return found, new

    for name in sorted(set(listed) | set(model.installed) | set(final)):
        before = model.installed.get(name)
        after = final.get(name)
        now = listed.get(name)
        if status == 'ok' and complete:
            if now != after:
                report(props('C03', 'C01'), 'ack-not-recorded',
                       'after %s succeeded, %s is listed as %s instead of %s'
                       % (verb, name, now, after))
        elif name not in involved:
            if now != before:
                report(props('C01'), 'record-other-package',
                       'after %s (%s), %s is listed as %s, it was %s'
                       % (verb, status, name, now, before))
        elif now not in (before, after) and not (
                now is None and before in removed):
            report(props('C01'), 'record-other-version',
                   'after %s (%s), %s is listed as %s; before: %s, '
                   'to be: %s' % (verb, status, name, now, before, after))
    for key in keys:
        before, now = model.config.get(key), view.config.get(key)
        after = config.get(key, before)
        if status == 'ok' and now != after:
            report(props('C03', 'C01'), 'config-lost',
                   'after %s succeeded, %s is %r instead of %r'
                   % (verb, key, now, after))
        elif now != before and now != after:
            report(props('C01'), 'config-wrong', 'after %s (%s), %s is %r; '
                   'before: %r, to be: %r' % (verb, status, key, now, before,
                                              after))

    # Dependencies come first
    for pid in added:
        spec = universe[pid]
        if listed.get(spec['name']) != pid:
            continue
        for dependency in spec['dependencies']:
            name = W.split_requirement(dependency)[0]
            have = listed.get(name)
            if have is None or not W.satisfies(universe[have], dependency):
                # it may have been there under its bare name
                if have is not None and dependency == name:
                    continue
                report('C06', 'dependency-missing',
                       'after %s (%s), %s is listed but not its dependency '
                       '%s' % (verb, status, pid, dependency))

    # The files
    new.installed = dict(listed)
    new.config = dict(view.config)
    settled = status == 'ok' and complete
    if do == 'mkenv' and settled:
        new.exists = True
    elif do == 'mkenv' and not model.exists:
        new.exists = machine.disk.get(prefix) is not None

    loose = set(model.loose)
    tainted = set(n for n in model.tainted if n in listed)
    for what, pid in steps:
        name = universe[pid]['name']
        if what == 'remove':
            if listed.get(name) == pid and pid not in added:
                # its removal may have begun
                if not settled:
                    tainted.add(name)
            else:
                tainted.discard(name)
        elif listed.get(name) != pid:
            # its installation may have begun
            loose |= paths_of(w, pid)
        else:
            tainted.discard(name)
    if power:
        # what the files contain is only promised to be durable once the
        # system has written it
        for name in involved & set(listed):
            tainted.add(name)

    tree = files_of(machine.disk, prefix)
    if do == 'cleanup':
        # what is temporary goes, or some of it if this is interrupted
        new.user = dict(
            (path, entry) for path, entry in model.user.items()
            if not path.startswith('tmp/') or
            not settled and path in tree)
    expected = {}
    for path, entry in new.user.items():
        expected[path] = 'user', entry
    maybe = set(loose)
    for name, pid in listed.items():
        if name in tainted:
            maybe |= paths_of(w, pid)
            continue
        for path, entry in package_files(w, pid, prefix).items():
            expected[path] = pid, entry
    for path, problem, owner in compare(w, prefix, expected, maybe, tree):
        text = 'after %s (%s), %s %s' % (verb, status, path, problem)
        if owner == 'user':
            report(props('C19'), 'user-file', text + ' (a file of the user)')
        elif owner is None:
            # whose is it?
            gone = [pid for pid in removed + model.installed.values()
                    if pid not in listed.values()
                    and path in paths_of(w, pid)]
            if gone:
                report(props(*(['C03'] if settled else [])) or 'C02',
                       'removed-package-file',
                       text + ' (it belongs to %s, not listed any more)'
                       % gone[0])
            else:
                report(props('C19'), 'stray-file', text)
        else:
            name = universe[owner]['name']
            which = ['C02']
            if settled and name in involved:
                which.append('C03')
            if name not in involved:
                which.append('C19')
            report(props(*which), 'package-file',
                   text + ' (it belongs to %s, which is listed)' % owner)

    if settled and not removed and do in ('mkenv', 'cleanup'):
        for path in DIRECTORIES if do == 'mkenv' else ('tmp',):
            node = machine.disk.get(posixpath.join(prefix, path).rstrip('/'))
            if node is None or node.kind != 'd':
                report('C17 C03', 'missing-directory', 'after %s succeeded, '
                       '%s is no directory' % (verb, path or prefix))
            elif do == 'cleanup' and node.entries:
                report('C17 C03', 'not-clean', 'after %s succeeded, there '
                       'still is %s' % (verb, sorted(node.entries)))

    # Loose paths which are expected now are not loose any more
    new.loose = set(p for p in loose if p in tree and p not in expected)
    new.tainted = tainted
    return found, new


def apply_steps(universe, state, steps):
    for what, pid in steps:
        name = universe[pid]['name']
        if what == 'remove':
            if state.get(name) == pid:
                del state[name]
        else:
            state[name] = pid


DIRECTORIES = ('', 'bin', 'sbin', 'include', 'lib', 'share', 'share/man',
               'lib/pkgconfig', 'tmp')


def describe(op):
    do = op['do']
    if do == 'install':
        return 'installing %s in %s' % (op['what'], op['env'])
    if do == 'uninstall':
        return 'uninstalling %s from %s' % (op['name'], op['env'])
    if do == 'config':
        return 'setting %s in %s' % (op['key'], op['env'])
    if do == 'mkenv':
        return 'creating %s' % op['env']
    if do == 'cleanup':
        return 'cleaning %s' % op['env']
    if do == 'mktmp':
        return 'making a temporary directory in %s' % op['env']
    return do
