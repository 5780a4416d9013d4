"""Commands which use an environment without changing it, and commands which
run together (C14, C15, C18)."""
import posixpath

import envs as E
import making
import scenario
import simproc
import world as W
from machine import Machine

V = E.Violation
PROGRAMS = '/usr/bin/'


@simproc.program('probe')
def probe(ctx):
    ctx.out.append('this is %s\n' % ctx.argv[0])
    if ctx.stdin:
        ctx.out.append('given %s' % ctx.stdin)
    return int(ctx.words[1])


def put_programs(world, disk, pages):
    for number in range(3):
        disk.makedirs('/srv/out%d' % number)
    for path, (code, mode) in world.get('programs', {}).items():
        if disk.get(path) is not None:
            disk.remove_tree(path)
        disk.put(path, '#!sim probe %d\n' % code, mode)


scenario.BUILDERS['using'] = put_programs


# -- the reference

def variables(w, prefix, installed, environ):
    """What a program run in an environment must get."""
    directories = {'prefix': prefix}
    for name in ('bin', 'sbin', 'include', 'lib', 'share', 'tmp'):
        directories[name] = '%s/%s' % (prefix, name)
    directories['man'] = prefix + '/share/man'
    directories['pkgconfig'] = prefix + '/lib/pkgconfig'
    env = dict(environ)
    lists = {}
    for name, first in (('PATH', ('sbin', 'bin')),
                        ('C_INCLUDE_PATH', ('include',)),
                        ('LD_LIBRARY_PATH', ('lib',)),
                        ('MANPATH', ('man',)),
                        ('PKG_CONFIG_PATH', ('pkgconfig',))):
        rest = environ.get(name)
        if rest is None:
            rest = '/usr/share/man' if name == 'MANPATH' else ''
        lists[name] = [directories[d] for d in first], rest
        env.pop(name, None)
    env['IPKG_ENVIRONMENT'] = prefix
    env['TMPDIR'] = directories['tmp']
    env['HOME'] = environ.get('HOME', '/')
    env.pop('PS1', None)
    for pid in installed.values():
        for name, value in (w['universe'][pid]['envvars'] or {}).items():
            try:
                value = value % directories
            except (KeyError, ValueError, TypeError):
                pass
            env[name] = value
            lists.pop(name, None)
    return env, lists


def wrong_variables(w, prefix, installed, environ, found):
    """What differs in the variables ``found``, or None."""
    env, lists = variables(w, prefix, installed, environ)
    for name in sorted(set(env) | set(found)):
        if name in lists or name == 'PS1':
            continue
        if env.get(name) != found.get(name):
            return '%s is %r instead of %r' % (name, found.get(name),
                                               env.get(name))
    for name, (first, rest) in sorted(lists.items()):
        value = found.get(name)
        if value is None:
            return '%s is missing' % name
        have = value.split(':')
        want = [d for d in rest.split(':') if d and d not in first]
        if have[:len(first)] != first:
            return '%s starts with %r instead of %r' % (
                name, ':'.join(have[:len(first)]), ':'.join(first))
        have = [d for d in have[len(first):] if d and d not in first]
        if have != want:
            return '%s goes on with %r instead of %r' % (
                name, ':'.join(have), ':'.join(want))
    return None


def search(disk, w, prefix, installed, environ, command, cwd):
    """The program which ``command`` designates: (path, code), or None."""
    if '/' in command:
        paths = [posixpath.join(cwd, command)]
    else:
        env, lists = variables(w, prefix, installed, environ)
        if 'PATH' in env:
            dirs = env['PATH'].split(':')
        else:
            first, rest = lists['PATH']
            dirs = first + [d for d in rest.split(':') if d]
        paths = ['%s/%s' % (d, command) for d in dirs]
    for path in paths:
        node = disk.get(path)
        if node is None or node.kind != 'f' or not node.mode & 0111:
            continue
        words = node.data.split('\n', 1)[0].split()
        if words[:2] == ['#!sim', 'probe']:
            return path, int(words[2])
        return path, None
    return None


# -- operations

def do_use(op):
    from ipkg.environments import Environment
    how = op['how']
    env = Environment(E.spell(op['env']))
    if how == 'exec':
        kw = {}
        if op.get('data') is not None:
            kw['data'] = op['data']
        if op.get('cwd'):
            kw['cwd'] = op['cwd']
        if op.get('pipe'):
            kw['stdout'] = simproc.PIPE
        command = op['command']
        if op.get('string'):
            command = ' '.join(command)
        result = env.execute(command, **kw)
        return result[0] if op.get('pipe') else None
    if how == 'printenv':
        return env.variables.as_string_dict()
    if how == 'list':
        return [str(p) for p in env.packages]
    if how == 'config':
        return env.get_config(op['key'])
    raise ValueError(how)


def use_argv(op):
    how, env = op['how'], E.spell(op['env'])
    where = [] if op.get('current') else ['-e', env]
    if how == 'exec':
        return ['exec', env] + op['command']
    if how == 'shell':
        words = ['shell', env]
        if op.get('command'):
            words[1:1] = ['-s', ' '.join(op['command'])]
        return words
    if how == 'printenv':
        return ['printenv'] + (['-x'] if op.get('export') else []) + [env]
    if how == 'list':
        return ['list'] + where
    if how == 'config':
        return ['config:get'] + where + [op['key']]
    raise ValueError(how)


def use_function(op):
    if op['how'] == 'find':
        base = op['repo']

        def find():
            from ipkg.repositories import PackageRepository
            return [dict(p.meta) for p in PackageRepository(base)]
        return find
    if op.get('via') == 'cli':
        words = use_argv(op)
        return lambda: E.cli(words)
    return lambda: do_use(op)


def environ_of(state, op):
    environ = dict(state.machine.environ)
    environ.update(op.get('environ') or {})
    return environ


def run_of(state, op, result, installed, code):
    """Problem with the program a command ran, or None."""
    w = state.world
    command = op.get('command') or ['/bin/bash']
    environ = environ_of(state, op)
    cwd = op.get('cwd') or '/home/user'
    there = search(state.machine.disk, w, op['env'], installed, environ,
                   command[0], cwd)
    if len(result.exec_log) > 1:
        return 'several programs were run'
    if not result.exec_log:
        if result.status == 'ok':
            return 'it succeeded without running anything'
        return None
    record = result.exec_log[0]
    wrong = wrong_variables(w, op['env'], installed, environ, record['env'])
    if wrong:
        return 'the program got other variables: %s' % wrong
    if record['argv'] != command:
        return 'it ran %r instead of %r' % (record['argv'], command)
    if there and record['path'] != there[0]:
        return 'it ran %s instead of %s' % (record['path'], there[0])
    if record['cwd'] != cwd:
        return 'it ran in %s instead of %s' % (record['cwd'], cwd)
    if (record['stdin'] or '') != (op.get('data') or ''):
        return 'the program was given %r' % record['stdin']
    if result.status == 'ok' and record['code'] != 0:
        return 'it succeeded although the program ended with %s' % \
            record['code']
    if op.get('pipe') and result.status == 'ok' and \
       result.value != said(op, command):
        return 'it gave %r instead of %r' % (result.value,
                                             said(op, command))
    if not op.get('pipe') and said(op, command) not in result.out and \
       not record.get('fate') and record['code'] is not None:
        return 'what the program printed was lost'
    return None


def said(op, command):
    return 'this is %s\n%s' % (command[0], 'given %s' % op['data']
                               if op.get('data') else '')


def seen_by(state, op, result, installed, config):
    """What contradicts this state in what a command showed, or None."""
    w = state.world
    how = op['how']
    if how in ('exec', 'shell'):
        return run_of(state, op, result, installed, None)
    if result.status != 'ok':
        return None
    cli = op.get('via') == 'cli'
    if how == 'printenv':
        if cli:
            found = {}
            for line in result.out.splitlines():
                if op.get('export'):
                    if not line.startswith('export '):
                        return 'it printed %r' % line
                    line = line[7:]
                name, sep, value = line.partition('=')
                if not sep or name in found:
                    return 'it printed %r' % line
                found[name] = value
        else:
            found = result.value
        return wrong_variables(w, op['env'], installed,
                               environ_of(state, op), found)
    if how == 'list':
        want = sorted('%s==%s' % (w['universe'][p]['name'],
                                  w['universe'][p]['version'])
                      for p in installed.values())
        found = sorted(result.out.splitlines() if cli else result.value)
        if found != want:
            return 'it listed %s instead of %s' % (found, want)
    if how == 'config':
        want = config.get(op['key'])
        found = result.out.rstrip('\n') if cli else result.value
        if found != (str(want) if cli else want):
            return 'it showed %r instead of %r' % (found, want)
    return None


def runnable(state, op, installed):
    """Can the command work?"""
    if op['how'] not in ('exec', 'shell'):
        return True
    command = op.get('command') or ['/bin/bash']
    cwd = op.get('cwd') or '/home/user'
    node = state.machine.disk.get(cwd)
    if node is None or node.kind != 'd':
        return False
    there = search(state.machine.disk, state.world, op['env'], installed,
                   environ_of(state, op), command[0], cwd)
    return there is not None and there[1] == 0


def states_of(state, prefix):
    """The states of an environment which a reader may see."""
    model = state.envs[prefix]
    states = [(model.installed, model.config)]
    for op in state.extra.get('writers', {}).get(prefix, ()):
        if op['do'] == 'install' or op['do'] == 'uninstall':
            steps = E.plan_install(state.world, model.installed, op['what'],
                                   op.get('repo'))[0] \
                if op['do'] == 'install' else \
                [('remove', model.installed[op['name']])] \
                if op['name'] in model.installed else []
            now = dict(model.installed)
            for step in steps:
                now = dict(now)
                E.apply_steps(state.world['universe'], now, [step])
                states.append((now, model.config))
        elif op['do'] == 'config':
            config = dict(model.config)
            config[op['key']] = op['value']
            states.append((model.installed, config))
    return states


def step_use(state, op):
    machine = state.machine
    roots = ['/tmp']
    outside = scenario.Outside(state, roots)
    result = machine.run('use', use_function(op), op)
    faulted = scenario.was_faulted(result, op)
    found = []
    note = '[%s] [%s] ' % (', '.join(result.fired), result.brief())
    verb = '%s %s' % (op['how'], ' '.join(op.get('command') or ()) or
                      op.get('key') or '')
    crowd = bool(state.extra.get('shared'))
    props = ['C14'] if crowd else ['C15']

    def report(klass, detail):
        for prop in props:
            found.append(V(prop, klass, '%s%s %s' % (note, verb, detail)))
    if result.status == 'hung':
        report('hang', 'does not end')
    if op['how'] == 'find':
        found.extend(judge_find(state, op, result, faulted, note))
    elif not state.envs[op['env']].lost:
        states = states_of(state, op['env'])
        wrong = None
        for installed, config in states:
            wrong = seen_by(state, op, result, installed, config)
            if wrong is None:
                break
        if wrong is not None:
            report('wrong-' + op['how'], 'in %s: %s' % (op['env'], wrong))
        if result.status == 'error' and not faulted and \
           all(runnable(state, op, s[0]) for s in states):
            report('failed-without-fault', 'failed although nothing went '
                   'wrong')
        if result.status == 'ok' and not [
                s for s in states if runnable(state, op, s[0])]:
            report('failure-ignored', 'succeeded although it cannot')
    elif state.envs[op['env']].broken and result.status == 'error' and \
            not faulted:
        report('unusable', 'failed although nothing ever went wrong')
    for violation in outside.check(state, note + verb):
        found.append(violation)
        found.append(V(props[0], 'changed-something', violation.detail))
    return result, found


def judge_find(state, op, result, faulted, note):
    """Reading the index of a repository while it is updated."""
    if result.status == 'error' and not faulted:
        yield V('C14', 'find-failed', note + 'reading the index failed')
    if not result.ok:
        return
    view = {}
    for meta in result.value:
        view[making.entry_key(meta)] = making.normal(meta)
    if len(view) != len(result.value):
        yield V('C14', 'find-twice', note + 'a package is there twice')
    indexes = state.extra.get('indexes')
    if indexes is None:
        choices = [making.view_index(state.machine, op['repo'])[1] or {}]
    else:
        choices = indexes[op['repo']]
    for index in choices:
        if view == dict((k, making.normal(m)) for k, m in index.items()):
            return
    yield V('C14', 'wrong-index', note + 'a reader found %s, neither what '
            'was there before nor after (%s)' % (
                sorted(view), '; '.join(str(sorted(i)) for i in choices)))


def judge_exec(state, op, one, entry, result, log):
    """A program run by a program which also installed packages."""
    model = state.envs[op['env']]
    if model.lost or op.get('_dropped'):
        # variables of packages which are gone: nothing is promised
        return []
    records = result.exec_log[entry['execs']:entry.get('end')]
    one = dict(one, env=op['env'], how='exec')
    found = []
    note = '[same program] [%s] ' % ', '.join(result.fired)
    if records:
        wrong = wrong_variables(state.world, op['env'], model.installed,
                                environ_of(state, op), records[0]['env'])
        if wrong:
            found.append(V('C15', 'wrong-in-memory', '%safter %s, the program '
                           'got other variables: %s' % (note, ', '.join(
                               E.describe(dict(e['op'], env=op['env']))
                               for e in log), wrong)))
        if entry['status'] == 'ok' and records[0]['code'] != 0:
            found.append(V('C15', 'failure-ignored', note + 'the program '
                           'ended with %s' % records[0]['code']))
    elif entry['status'] == 'ok':
        found.append(V('C15', 'not-run', note + 'it succeeded without '
                       'running anything'))
    if entry['status'] == 'error' and not result.fired and \
       runnable(state, one, model.installed):
        found.append(V('C15', 'failed-without-fault', '%s%s' % (
            note, entry['exc'])))
    return found


scenario.STEPS['use'] = step_use
scenario.JUDGES['exec'] = judge_exec


# -- running together

class Captured(Exception):
    pass


class Probe(Machine):
    """Tells what a step runs."""

    def run(self, name, func, op=None, cwd='/home/user'):
        raise Captured(name, func, op)


class Replay(Machine):
    """Gives a step the outcome of what it runs."""

    def run(self, name, func, op=None, cwd='/home/user'):
        self.disk = self.after
        op.update(self.captured)
        return self.result


def roots_of(state, op):
    """Where an operation may write."""
    w = state.world
    roots = ['/tmp']
    if w.get('cache'):
        roots.append(w['cache'])
    if op.get('env') and op['do'] != 'use':
        roots.append(op['env'])
    if op['do'] == 'build':
        roots.append(op['dir'])
    if op['do'] in ('mkrepo', 'batch') or op.get('update'):
        roots.append(op['repo'])
    return roots


def step_together(state, op):
    machine = state.machine
    parts = op['parts']
    for part in parts:
        if op.get('net'):
            part['net'] = op['net']
    captured = []
    for part in parts:
        copy = state.clone()
        copy.machine.__class__ = Probe
        try:
            scenario.step(copy, part)
        except Captured, exc:
            name, func, ran = exc.args
            captured.append((name, func, dict(ran)))
    if len(parts) == 1:
        return scenario.step(state, parts[0])
    base = machine.clone()
    results = machine.run_together(captured, op)
    writers = {}
    indexes = {}
    for part in parts:
        if part['do'] in ('install', 'uninstall', 'config'):
            writers.setdefault(part['env'], []).append(part)
        if part['do'] == 'use' and part['how'] == 'find':
            repo = part['repo']
            indexes[repo] = [making.view_index(base, repo)[1] or {},
                             making.view_index(machine, repo)[1] or {}]
    calm = not [r for r in results if r.status != 'ok'] and \
        not [p for p in parts if p.get('keep')]
    found = []
    states = {}
    for number, (part, result) in enumerate(zip(parts, results)):
        copy = state.clone()
        replay = copy.machine = base.clone()
        replay.traces = None
        replay.__class__ = Replay
        replay.after = machine.disk.clone()
        replay.result = result
        replay.captured = dict((k, v) for k, v in captured[number][2].items()
                               if k.startswith('_'))
        others = [p for i, p in enumerate(parts) if i != number]
        copy.extra['shared'] = sum((roots_of(state, p) for p in others), [])
        copy.extra['writers'] = writers
        copy.extra['indexes'] = indexes
        copy.extra['calm'] = calm
        _, more = scenario.step(copy, part)
        for violation in more:
            found.append(violation)
            for prop in op.get('also') or ():
                if violation.prop not in ('C14', 'C15', 'C18'):
                    found.append(V(prop, 'concurrent-' + violation.klass,
                                   violation.detail))
        if part.get('env') and part['do'] != 'use':
            states[part['env']] = copy.envs[part['env']]
        for key, value in copy.extra.items():
            if key in ('shared', 'writers', 'indexes', 'calm'):
                continue
            if state.extra.get(key) != value:
                state.extra[key] = value
    state.envs.update(states)
    for violation in found:
        violation.detail = 'together with others: ' + violation.detail
    return Together(results), found


class Together(object):
    """The outcome of several processes, as one."""

    def __init__(self, results):
        self.parts = results
        self.fired = sum((r.fired for r in results), [])
        bad = [r for r in results if r.status != 'ok']
        self.status = bad[0].status if bad else 'ok'
        self.bad = bad
        self.ok = not bad
        self.switches = results[0].switches
        self.requests = results[0].requests
        self.kinds = sum((r.kinds for r in results), [])
        self.children = sum((r.children for r in results), [])

    def brief(self):
        return '; '.join(r.brief() for r in self.parts)


scenario.STEPS['together'] = step_together
