"""Remote files and the download cache: operations and oracles (C07, C08).

A process opens files through vopen and reads them in any way; the reference
is a string and a position.
"""
import hashlib

import envs as E
import making
import scenario
import seams
import world as W

V = E.Violation
SIZES = (0, 1, 10, 700, 5000, 70000)


def put_files(world, disk, pages):
    for url, spec in world['files'].items():
        data = W.blob(spec['size'], spec['seed'])
        if '://' in url and not url.startswith('file:'):
            pages[url] = (200, {}, data)
        else:
            disk.put(url.replace('file://', ''), data)
    if world.get('cache') and world.get('cache_mode') is not None:
        disk.get(world['cache']).mode = world['cache_mode']


scenario.BUILDERS['fetching'] = put_files


def content(w, url):
    spec = w['files'].get(url)
    return None if spec is None else W.blob(spec['size'], spec['seed'])


def remote(url):
    return url.startswith('http')


def digest(act, w):
    if act.get('sum') == 'right':
        return hashlib.new(act['algo'], content(w, act['url']) or ''
                           ).hexdigest()
    return '0' * 40


# -- the process

def perform(w, acts, log):
    from ipkg.exceptions import IpkgException
    from ipkg.files import vopen
    handles = {}
    for act in acts:
        proc = seams.KERNEL.cur
        fired, asked = len(proc.fired), len(proc.asked)
        entry = {'act': act}
        do = act['do']
        try:
            if do == 'open':
                kw = {}
                if act.get('sum'):
                    kw['expected_hash'] = digest(act, w)
                    kw['hash_class'] = getattr(hashlib, act['algo'])
                handles.pop(act['f'], None)
                handles[act['f']] = vopen(act['url'], **kw)
                entry['value'] = None
            elif act['f'] not in handles:
                entry['skipped'] = True
            elif do == 'read':
                entry['value'] = handles[act['f']].read(*act['args'])
            elif do == 'seek':
                handles[act['f']].seek(*act['args'])
                entry['value'] = None
            elif do == 'tell':
                entry['value'] = handles[act['f']].tell()
            elif do == 'verify':
                handles[act['f']].verify_checksum()
                entry['value'] = None
        except Exception, exc:
            entry['error'] = '%s: %s' % (type(exc).__name__, exc)
            entry['ipkg'] = isinstance(exc, IpkgException)
            if do == 'open':
                handles.pop(act['f'], None)
        entry['fired'] = proc.fired[fired:]
        entry['asked'] = proc.asked[asked:]
        log.append(entry)


def check(w, log, down=False):
    """Compare what one process saw with the reference."""
    files = {}
    for entry in log:
        act = entry['act']
        do = act['do']
        f = act['f']
        if do == 'open':
            data = content(w, act['url'])
            files[f] = {'url': act['url'], 'data': data, 'pos': 0,
                        'sum': act.get('sum'), 'sure': True}
        if entry.get('skipped') or f not in files:
            continue
        model = files[f]
        url, data = model['url'], model['data']
        what = '%s %s of %s' % (do, tuple(act.get('args') or ()), url)
        fired = [x for x in entry['fired'] if x != 'net redirect']
        corrupt = 'net corrupt' in fired
        if corrupt:
            model['corrupt'] = True
        if 'error' in entry:
            expected = data is None or (do == 'verify' and model['sum'] and (
                model['sum'] == 'wrong' or model.get('corrupt')))
            if not fired and not expected and \
               not (down and entry['asked']) and model['sure']:
                yield V('C07', 'failed-without-fault', '%s failed: %s' % (
                    what, entry['error']))
                yield V('C08', 'failed-without-fault', '%s failed: %s' % (
                    what, entry['error']))
            local = [x for x in fired if not x.startswith('net ')]
            if not local and not entry['ipkg'] and model['sure']:
                yield V('C07', 'foreign-error', '%s [%s] raised %s' % (
                    what, ', '.join(fired), entry['error']))
            if local and len(local) == len(fired) and remote(url) and \
               not expected and not (down and entry['asked']) and \
               not [x for x in local if x.endswith('@read')]:
                yield V('C08', 'cache-broke-download', '%s [%s] failed: %s'
                        % (what, ', '.join(fired), entry['error']))
            if local or model.get('corrupt'):
                # where it was read up to is not known
                model['sure'] = False
            if do == 'open':
                del files[f]
            continue
        if not model['sure'] or model.get('corrupt') and do != 'verify':
            continue
        if data is None and do != 'open':
            if do == 'verify' and not model['sum']:
                continue
            yield V('C07', 'success-missing', '%s succeeded, there is no '
                    'such file' % what)
            continue
        if do == 'verify' and model['sum'] and (
                model['sum'] == 'wrong' or model.get('corrupt')):
            yield V('C07', 'checksum-ignored', '%s succeeded, its content '
                    'does not match' % what)
            continue
        pos = model['pos']
        if do == 'read':
            size = act['args'][0] if act['args'] else -1
            end = len(data) if size < 0 else min(len(data), pos + size)
            good = data[pos:end]
            model['pos'] = end
            if entry['value'] != good:
                for prop in ('C07', 'C08'):
                    yield V(prop, 'wrong-content', '%s [%s] at %d gave %s '
                            'instead of %s' % (
                                what, ', '.join(fired), pos,
                                brief(entry['value']), brief(good)))
                model['sure'] = False
        elif do == 'seek':
            offset = act['args'][0]
            whence = act['args'][1] if len(act['args']) > 1 else 0
            model['pos'] = offset + (0, pos, len(data))[whence]
        elif do == 'tell':
            if entry['value'] != pos:
                yield V('C07', 'wrong-position', '%s gave %r instead of %d'
                        % (what, entry['value'], pos))
                model['sure'] = False


def brief(data):
    return '%d bytes (%s)' % (len(data), hashlib.md5(data).hexdigest()[:8])


def cached(state):
    """{url: content or None}, without the network."""
    w = state.world
    other = state.machine.clone()
    other.traces = None
    urls = [u for u in sorted(set(w['files']) | set(w['missing']))
            if remote(u)]

    def observer():
        from ipkg.exceptions import IpkgException
        from ipkg.files import vopen
        result = {}
        for url in urls:
            try:
                result[url] = vopen(url).read()
            except (IpkgException, IOError, OSError):
                result[url] = None
        return result
    result = other.run('observer', observer, {'net': {'down': True}})
    return result.value if result.ok else {}


def usable(state):
    """Can something be stored in the cache?"""
    cache = state.world.get('cache')
    node = cache and state.machine.disk.get(cache)
    if not node or node.kind != 'd':
        return False
    return not state.machine.config.get('uid') or bool(node.mode & 0200)


def step_fetch(state, op):
    machine, w = state.machine, state.world
    if op.get('power'):
        machine.settle()
    before = cached(state) if w.get('cache') else {}
    outside = scenario.Outside(state, [w['cache']] if w.get('cache') else [])
    parts, logs = [], []
    for number, part in enumerate(op['parts']):
        log = []
        logs.append(log)
        parts.append(('fetch%d' % number,
                      lambda acts=part['acts'], log=log: perform(w, acts,
                                                                 log),
                      part))
    if len(parts) == 1:
        results = [machine.run(parts[0][0], parts[0][1],
                               dict(op, faults=op['parts'][0].get('faults')))]
    else:
        results = machine.run_together(parts, op)
    down = bool((op.get('net') or {}).get('down'))
    found = []
    stored = usable(state)
    for result, log, part in zip(results, logs, op['parts']):
        note = '[%s] [%s] ' % (', '.join(result.fired), result.brief())
        if result.status == 'hung':
            found.append(V('C07', 'hang', note + 'reading does not end'))
        elif result.status == 'error':
            found.append(V('C07', 'foreign-error', note))
        for violation in check(w, log, down):
            violation.detail = note + violation.detail
            found.append(violation)
    after = cached(state) if w.get('cache') else {}
    for url in sorted(after):
        now = after[url]
        good = content(w, url)
        if now is None or now == good:
            continue
        if [r for r in results if 'net corrupt' in r.fired]:
            # nothing said what it should be
            continue
        found.append(V('C08', 'wrong-content-cached', '%s: what is cached '
                       'for %s is %s instead of %s' % (
                           outcome(results), url, brief(now),
                           'nothing' if good is None else brief(good))))
    wrong = set(a['url'] for p in op['parts'] for a in p['acts']
                if a['do'] == 'open' and a.get('sum') == 'wrong')
    for result, log in zip(results, logs):
        disk = [x for x in result.fired if not x.startswith('net ')]
        for entry in log:
            for url in entry['asked']:
                if before.get(url) is not None and not disk and \
                   url not in wrong and len(results) == 1 and stored:
                    found.append(V('C08', 'downloaded-again', '%s: %s was '
                                   'cached' % (outcome(results), url)))
        if not stored or disk or result.status != 'ok':
            continue
        for entry in log:
            for url in entry['asked']:
                if url in wrong or 'value' not in entry or entry['fired'] \
                   or down:
                    continue
                if after.get(url) is None and content(w, url) is not None:
                    found.append(V('C08', 'not-cached', '%s: %s was '
                                   'downloaded, it is not cached' % (
                                       outcome(results), url)))
    for url, data in before.items():
        if data is not None and after.get(url) is None and url not in wrong:
            found.append(V('C08', 'cache-lost', '%s: %s was cached' % (
                outcome(results), url)))
    found.extend(outside.check(state, outcome(results)))
    if op.get('power') and results[0].status == 'killed':
        machine.settle()
    result = results[0]
    if len(results) > 1:
        result.fired = sum((r.fired for r in results), [])
        if [r for r in results if r.status != 'ok']:
            result.status = [r.status for r in results
                             if r.status != 'ok'][0]
        result.parts = results
    result.asked = [u for log in logs for e in log for u in e['asked']]
    return result, found


def outcome(results):
    return ' and '.join('fetch [%s] (%s)' % (', '.join(r.fired), r.status)
                        for r in results)


def step_cachedir(state, op):
    """Something happens to the cache directory: not a command."""
    disk = state.machine.disk
    path = state.world['cache']
    how = op['how']
    node = disk.get(path)
    if how == 'create':
        disk.makedirs(path)
        disk.get(path).mode = 0755
    elif node is None:
        pass
    elif how == 'remove':
        disk.remove_tree(path)
    elif how == 'readonly':
        node.mode = 0555
    elif how == 'file':
        disk.remove_tree(path)
        disk.put(path, 'not a directory\n')
    state.machine.settle()
    return making.Nothing(), []


def step_remote(state, op):
    """Installing from a remote repository."""
    complete = E.plan_install(state.world, state.envs[op['env']].installed,
                              op['what'], op.get('repo'))[1]
    result, found = scenario.step_env(state, dict(op, do='install'))
    net = [f for f in result.fired if f.startswith('net ')]
    cache = [f for f in result.fired if not f.startswith('net ')]
    more = []
    if result.status == 'hung':
        more.append(V('C07', 'hang', 'installing does not end'))
    for violation in found:
        if len(net) == len(result.fired) and violation.klass in (
                'ack-not-recorded', 'package-file', 'record-wrong-meta',
                'success-unresolved', 'failed-without-fault'):
            more.append(V('C07', 'remote-' + violation.klass,
                          violation.detail))
    cache_only = cache and all(
        path.startswith(state.world['cache'] or '/none/')
        for path in result.fired_at)
    if cache_only and result.status != 'ok' and not net and \
       result.status != 'killed' and \
       not [f for f in cache if f.endswith('@read') or
            f.startswith('full@')]:
        if complete:
            more.append(V('C08', 'cache-broke-download', '[%s] [%s] %s '
                          'failed' % (', '.join(result.fired),
                                      result.brief(), E.describe(
                                          dict(op, do='install')))))
    if state.world.get('cache'):
        for violation in found:
            if violation.klass in ('package-file', 'record-wrong-meta'):
                more.append(V('C08', 'cache-' + violation.klass,
                              violation.detail))
    return result, found + more


scenario.STEPS.update({'fetch': step_fetch, 'cachedir': step_cachedir,
                       'remote': step_remote})
