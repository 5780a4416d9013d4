"""Formulas, builds and repositories: operations and oracles (C09-C13, C16).

Packages which builds make are judged against their formula: the sources
archive lists what ``make install`` puts in the environment.
"""
import hashlib
import json
import posixpath
import re
import StringIO
import tarfile

import envs as E
import scenario
import seams
import simproc
import world as W

V = E.Violation

FORMULAS = '/srv/formulas'
ALGOS = ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512')


# -- generation

def gen_outputs(rng, name, version, count):
    entries = W.gen_files(rng, name, version, count)
    if rng.randrange(3) == 0:
        # links to directories, links to absolute paths
        entries.append({'path': 'share/%s/dirlink' % name, 'kind': 'l',
                        'to': '../%s' % name})
    if rng.randrange(4) == 0:
        entries.append({'path': '.%s' % name, 'kind': 'f', 'what': 'blob',
                        'mode': 0600, 'seed': rng.randrange(1000),
                        'size': 20})
    if rng.randrange(5) == 0:
        entries.append({'path': 'share/%s/big' % name, 'kind': 'f',
                        'what': 'blob', 'mode': 0644,
                        'seed': rng.randrange(1000), 'size': 70000})
    return entries


FORMS = ('plain', 'plain', 'dotted', 'bare', 'ustar', 'pax')


def gen_formula(rng, name, version, revision, dependencies, remote=True,
                fails=None, algo=None, files=(1, 6), kinds=None):
    kind = rng.choice(kinds or ('tar.gz', 'tar.gz', 'tar.bz2', 'tar.xz',
                                'zip'))
    base = 'http://src.example' if remote and rng.randrange(3) == 0 \
        else rng.choice(('/srv/src', '/srv/src', '/srv/a #1?'))
    outputs = gen_outputs(rng, name, version, rng.randrange(*files))
    patches = []
    if rng.randrange(3) == 0:
        for n in range(rng.choice((1, 1, 2))):
            patches.append({
                'url': '%s/%s-%s-%d.patch' % (
                    rng.choice((base, '/srv/src')), name, version, n),
                'algo': rng.choice((None,) + ALGOS)})
        outputs.append({'path': 'share/%s/patched' % name, 'kind': 'f',
                        'what': 'patched', 'mode': 0644,
                        'seed': rng.randrange(1000)})
    spec = {
        'name': name, 'version': version, 'revision': revision,
        'dependencies': dependencies,
        'homepage': rng.choice((None, 'http://%s.org' % name)),
        'platform': rng.choice((None, 'any')),
        'url': '%s/%s-%s.%s' % (base, name, version, kind),
        'kind': kind, 'form': rng.choice(FORMS), 'root': '%s-%s' % (name, version),
        'algo': rng.choice((None,) + ALGOS) if algo is None else algo,
        'patches': patches,
        'style': 'custom' if kind == 'zip' or rng.randrange(3) == 0
        else 'autotools',
        'outputs': outputs, 'fails': fails,
        'dirs': ['var/%s' % name] if rng.randrange(4) == 0 else [],
        'envvars': None, 'build_envvars': None,
        'extra': rng.randrange(4),
    }
    if rng.randrange(3) == 0:
        spec['envvars'] = {'%s_HOME' % re.sub(r'\W', '_', name):
                           '%(prefix)s/share/' + name}
    if rng.randrange(3) == 0:
        spec['build_envvars'] = {'CFLAGS': '-O%d' % rng.randrange(4),
                                 'OUT': '%(lib)s'}
    return spec


def fid_of(spec):
    return '%s==%s:%s' % (spec['name'], spec['version'], spec['revision'])


def source_files(spec):
    """[(path, mode, data)] of the sources archive. ``data`` is a string,
    ('link', target), ('hard', other path) or ('dir',)."""
    files = [('configure', 0755, '#!sim configure\n')]
    lines = []
    for i, entry in enumerate(e for e in spec['outputs']
                              if e['kind'] == 'f'):
        lines.append('f\t%o\t%s\tsrc/%d' % (entry['mode'], entry['path'], i))
        data = 'not patched\n' if entry['what'] == 'patched' \
            else W.content(entry, '@PREFIX@')
        files.append(('src/%d' % i, 0644, data))
    for entry in spec['outputs']:
        if entry['kind'] == 'l':
            lines.append('l\t%s\t%s' % (entry['path'], entry['to']))
        elif entry['kind'] == 'h':
            lines.append('h\t%s\t%s' % (entry['path'], entry['to']))
    for path in spec.get('dirs') or ():
        lines.append('d\t%s' % path)
    if spec['fails'] == 'make':
        lines.insert(len(lines) // 2, 'f\t644\tx\tmissing')
    elif spec['fails'] == 'install':
        lines.append('h\tshare/broken\tno/such/file')
    files.append(('INSTALL.txt', 0644, '\n'.join(lines) + '\n'))
    if spec['extra']:
        files.append(('README', 0644, 'Read me\n' * 50))
        files.append(('doc/deep/er/empty', 0600, ''))
        if spec['kind'] != 'zip':
            files.append(('README.txt', 0777, ('link', 'README')))
    if spec['extra'] > 1:
        files.append(('.hidden', 0644, 'hidden\n'))
        files.append(('.config/settings', 0600, 'x = 1\n'))
        files.append(('tests/%s/data' % ('long' * 30), 0644, 'data\n' * 40))
        files.append(('spaces in name', 0755, '\r\n'))
        files.append(('m4', 0755, ('dir',)))
        if spec['kind'] != 'zip':
            files.append(('include/config', 0777, ('link', '../.config')))
            files.append(('include/absent', 0777, ('link', 'made/later')))
            files.append(('COPYING', 0644, ('hard', 'README')))
    if spec['fails'] == 'configure':
        files = [f for f in files if f[0] != 'configure']
        files.append(('configure', 0755, '#!sim false\n'))
    return files


def patched_source(spec):
    """Which source file the patches change, if any."""
    for i, entry in enumerate(e for e in spec['outputs']
                              if e['kind'] == 'f'):
        if entry['what'] == 'patched':
            return 'src/%d' % i, 'patched %d\n' % entry['seed']
    return None, None


_archives = {}


def archive_bytes(spec):
    key = json.dumps(spec, sort_keys=True)
    data = _archives.get(key)
    if data is None:
        if len(_archives) > 300:
            _archives.clear()
        form = 'two' if spec['fails'] == 'roots' \
            else spec.get('form', 'plain')
        data = W.make_archive(spec['root'], source_files(spec), spec['kind'],
                              form)
        if spec['fails'] == 'garbage':
            data = '<html><body>Moved to another place</body></html>\n' * 9
        elif spec['fails'] == 'truncated':
            data = data[:len(data) * (1 + spec['extra']) // 5]
        _archives[key] = data
    return data


def patch_bytes(spec, number):
    path, text = patched_source(spec)
    if number < len(spec['patches']) - 1:
        text = 'intermediate %d\n' % number
    return '%s\t%s' % (path, text)


# what is missing of truncated archives may be only their padding
BAD_SOURCES = ('roots', 'missing', 'garbage')
RAISED = ('KeyError("prefix")', 'ValueError', 'OSError(2, "No such file")',
          'RuntimeError("100% wrong: %s %d")')
# formulas which cannot even be loaded
UNLOADABLE = {
    'syntax': 'class Recipe(Formula:\n    pass\n',
    'import': 'import nothing_like_this\n\nfrom ipkg.build import Formula\n',
    'nothing': 'from ipkg.build import Formula, File\n\nname = 1\n',
    'name': 'from ipkg.build import Formula\n\n\n'
            'class Recipe(Formula):\n    sources = Fil("x")\n',
}


def formula_text(spec):
    if spec['fails'] in UNLOADABLE:
        return UNLOADABLE[spec['fails']]

    def file_of(url, algo, data, wrong=False):
        if not algo:
            return 'File(%r)' % url
        value = hashlib.new(algo, data).hexdigest()
        if wrong:
            value = '0' + value[1:] if value[0] != '0' else '1' + value[1:]
        return 'File(%r, %s=%r)' % (url, algo, value)
    lines = ['from ipkg.build import Formula, File', '', '',
             'class Recipe(Formula):',
             '    name = %r' % spec['name'],
             '    version = %r' % spec['version'],
             '    revision = %r' % spec['revision'],
             '    sources = ' + file_of(spec['url'], spec['algo'],
                                        archive_bytes(spec),
                                        spec['fails'] == 'checksum')]
    if spec['patches']:
        lines.append('    patches = (%s,)' % ', '.join(
            file_of(p['url'], p['algo'], patch_bytes(spec, n))
            for n, p in enumerate(spec['patches'])))
    if spec['fails'] == 'incomplete':
        lines.append('    sources = None')
    wanted = tuple(spec['dependencies'])
    if spec['fails'] == 'requirement':
        wanted += (W.INVALID_REQUIREMENTS[spec['extra']],)
    if wanted:
        lines.append('    dependencies = %r' % (wanted,))
    for key in ('homepage', 'platform', 'envvars', 'build_envvars'):
        if spec[key]:
            lines.append('    %s = %r' % (key, spec[key]))
    if spec['style'] == 'custom':
        lines += ['', '    def install(self):',
                  '        self.run_setup(["--prefix=" + '
                  'self.environment.prefix])',
                  '        self.run_make()',
                  '        self.run_make("install")']
        if spec['fails'] == 'configure':
            lines.insert(-2, '        self.run_false()')
    if spec['fails'] == 'raises':
        lines += ['', '    def run_configure(self):',
                  '        raise %s' % RAISED[spec['extra']], '',
                  '    run_setup = run_configure']
    return '\n'.join(lines) + '\n'


def formula_path(spec):
    return '%s/%s/%s-%s.py' % (FORMULAS, spec['name'], spec['name'],
                               spec['version'])


def put_formulas(world, disk, pages):
    disk.makedirs(FORMULAS)
    disk.makedirs('/srv/out')
    for base in world.get('empty_repos', ()):
        disk.makedirs(base)
    for fid, spec in sorted(world.get('formulas', {}).items()):
        disk.put(formula_path(spec), formula_text(spec))
        things = [(spec['url'], archive_bytes(spec))]
        if spec['fails'] == 'missing':
            things = []
        for n, patch in enumerate(spec['patches']):
            things.append((patch['url'], patch_bytes(spec, n)))
        for url, data in things:
            if '://' in url:
                pages[url] = (200, {}, data)
            else:
                disk.put(url, data)


def start(state):
    state.extra['tampered'] = {}        # path: original content
    state.extra['litter'] = {}          # prefix: files of broken installs


scenario.BUILDERS['making'] = put_formulas
scenario.STARTERS['making'] = start


# -- reading packages

_parsed = {}


def parse_package(data):
    """(meta, {path: entry}) or None."""
    key = hashlib.md5(data).digest()
    if key not in _parsed:
        if len(_parsed) > 3000:
            _parsed.clear()
        try:
            _parsed[key] = _parse(data)
        except Exception:
            _parsed[key] = None
    return _parsed[key]


def _parse(data):
    tar = tarfile.open(fileobj=StringIO.StringIO(seams.decompressed(data)),
                       mode='r:')
    meta = None
    files = {}
    for info in tar.getmembers():
        if info.name == W.META_FILE:
            meta = W.byteify(json.loads(tar.extractfile(info).read()))
        elif info.issym():
            files[info.name] = ('l', info.linkname)
        elif info.islnk():
            files[info.name] = files[info.linkname]
        elif info.isreg():
            files[info.name] = ('f', info.mode & 07777,
                                tar.extractfile(info).read())
        else:
            files[info.name] = ('other', info.type)
    if meta is None:
        raise ValueError('no meta data')
    return meta, files


def expected_files(spec, prefix):
    return W.installed_files(dict(files=spec['outputs'], build_prefix=prefix),
                             prefix)


def package_filename(spec):
    return '%s-%s-%s-%s.ipkg' % (spec['name'], spec['version'],
                                 spec['revision'],
                                 spec['platform'] or W.PLATFORM)


def check_package(spec, data, prefix=None):
    """What is wrong with this package of this formula, or None."""
    parsed = parse_package(data)
    if parsed is None:
        return 'is not a complete package'
    meta, files = parsed
    want = {
        'name': spec['name'], 'version': spec['version'],
        'revision': str(spec['revision']),
        'platform': spec['platform'] or W.PLATFORM,
        'dependencies': list(spec['dependencies']),
        'homepage': spec['homepage'], 'envvars': spec['envvars'],
        'build_platform': W.PLATFORM,
    }
    for key, value in sorted(want.items()):
        if meta.get(key) != value:
            return 'says %s is %r instead of %r' % (key, meta.get(key), value)
    for key in ('hostname', 'timestamp', 'build_prefix'):
        if not meta.get(key):
            return 'has no %s' % key
    if prefix is not None and meta['build_prefix'] != prefix:
        return 'says it was built in %s instead of %s' % (
            meta['build_prefix'], prefix)
    expected = expected_files(spec, meta['build_prefix'])
    if sorted(meta.get('files') or ()) != sorted(expected):
        return 'lists %r instead of %r' % (sorted(meta.get('files') or ()),
                                           sorted(expected))
    for path in sorted(set(files) | set(expected)):
        if path not in files:
            return 'misses %s' % path
        if path not in expected:
            return 'also contains %s' % path
        if files[path] != expected[path]:
            a, b = files[path], expected[path]
            if a[0] == b[0] == 'f' and a[1] != b[1]:
                return 'has %s with mode %o instead of %o' % (path, a[1],
                                                              b[1])
            return 'has %s with another content' % path
    return None


# -- repositories on disk

def on_disk(disk, base):
    """{relative path: content} of the package files of a repository."""
    result = {}
    cut = len(base) + 1
    for path, entry in disk.tree(base).items():
        rel = path[cut:]
        if entry[0] == 'f' and rel.endswith('.ipkg') and \
           rel.count('/') == 1:
            result[rel] = entry[2]
    return result


def entry_key(meta):
    return '%s/%s-%s-%s-%s.ipkg' % (meta['name'], meta['name'],
                                    meta['version'], meta['revision'],
                                    meta['platform'])


def view_index(machine, base):
    """(error, {relative path: meta}) as a new process sees it."""
    def observer():
        from ipkg.repositories import PackageRepository
        return [dict(p.meta) for p in PackageRepository(base)]
    result = machine.peek(observer)
    if not result.ok:
        return result.brief(), None
    view = {}
    for meta in result.value:
        try:
            key = entry_key(meta)
        except KeyError:
            return 'incomplete entry %r' % meta, None
        if key in view:
            return '%s is listed twice' % key, None
        view[key] = meta
    return None, view


def true_entries(packages):
    """{relative path: meta} the index must have for these files."""
    result = {}
    for rel, data in packages.items():
        parsed = parse_package(data)
        if parsed is None:
            result[rel] = None
            continue
        meta = dict(parsed[0])
        meta['checksum'] = hashlib.sha256(data).hexdigest()
        result[rel] = meta
    return result


def normal(meta):
    """Meta data, for comparisons."""
    meta = dict(meta)
    if 'files' in meta:
        meta['files'] = sorted(meta['files'])
    return meta


# -- what a build needs

def find_best(index, requirement):
    found = [meta for meta in index.values()
             if W.satisfies(meta, requirement)]
    if not found:
        return None
    found.sort(key=lambda m: (W.version_key(m['version']),
                              int(m['revision'])))
    return found[-1]


def closure(index, installed, requirements, result=None):
    """Metas to install from the index, or None.

    ``installed``: {name: what is there}. What dependencies require is taken
    from the repository even if another version is there. ``result`` also
    gets those which come before one which cannot be found."""
    result = {} if result is None else result

    def visit(requirement):
        name = W.split_requirement(requirement)[0]
        if name in result:
            return True
        meta = find_best(index, requirement)
        if meta is None:
            return False
        result[name] = meta
        for dependency in meta.get('dependencies') or ():
            other = W.split_requirement(dependency)[0]
            have = installed.get(other)
            if have is not None:
                if dependency == other:
                    continue
                best = find_best(index, dependency)
                if best is not None and best['version'] == have['version'] \
                   and str(best['revision']) == str(have['revision']):
                    continue
            if not visit(dependency):
                return False
        return True
    for requirement in requirements:
        name = W.split_requirement(requirement)[0]
        have = installed.get(name)
        if have is not None and W.satisfies(have, requirement):
            continue
        if not visit(requirement):
            return None
    return result


def reachable(index, spec):
    """Metas of what building this may install, before it fails."""
    names = set()
    queue = [spec]
    while queue:
        for requirement in queue.pop().get('dependencies') or ():
            name = W.split_requirement(requirement)[0]
            if name not in names:
                names.add(name)
                queue += [m for m in index.values() if m['name'] == name]
    return [m for m in index.values() if m['name'] in names]


def touched(state, base, spec, needed):
    """Which changed files this build must refuse: (known, unknown)."""
    tampered = state.extra['tampered']
    known, unknown = [], []
    files = [(spec['url'], spec['algo'])]
    files += [(p['url'], p['algo']) for p in spec['patches']]
    for path, algo in files:
        if path in tampered:
            (known if algo else unknown).append(path)
    for meta in (needed or {}).values():
        path = posixpath.join(base, entry_key(meta))
        if path in tampered:
            (known if meta.get('checksum') else unknown).append(path)
    return known, unknown


def bad_cache(state):
    """Files of the download cache which are not what was downloaded."""
    cache = state.world.get('cache')
    result = []
    for path, data in sorted(state.extra['tampered'].items()):
        if cache and path.startswith(cache + '/'):
            node = state.machine.disk.get(path)
            if node is not None and node.kind == 'f' and node.data != data:
                result.append(path)
    return result


def cached_checked(state):
    """Files of the cache holding contents whose checksums are known."""
    w = state.world
    cache = w.get('cache')
    if not cache or state.machine.disk.get(cache) is None:
        return []
    known, unknown = set(), set()
    algos = {}
    for spec in w['formulas'].values():
        for item in [spec] + spec['patches']:
            algos.setdefault(item['url'], []).append(item['algo'])
    for url, page in state.machine.pages.items():
        checked = url.endswith('.ipkg') if url not in algos \
            else all(algos[url])
        (known if checked else unknown).add(page[2])
    return sorted(path for path, node in
                  state.machine.disk.tree(cache).items()
                  if node[0] == 'f' and node[2] in known
                  and node[2] not in unknown)


def bad_dependencies(w, result):
    """What the dependencies of a build were when it was configured."""
    for record in result.exec_log:
        if 'sources' not in record or record.get('prefix') is None:
            continue
        prefix = record['prefix']
        node = record['disk'].get(prefix + '/.ipkg.meta')
        try:
            have = json.loads(node.data)['packages']
        except (AttributeError, ValueError, KeyError):
            continue
        tree = E.files_of(record['disk'], prefix)
        for meta in have.values():
            try:
                pid = W.pid_of(meta)
            except KeyError:
                continue
            if pid not in w['universe']:
                continue
            for path, entry in sorted(E.package_files(w, pid,
                                                      prefix).items()):
                if tree.get(path) != entry:
                    yield V('C09', 'corrupt-used', 'configured with %s, '
                            'where %s is %s instead of %s' % (
                                pid, path, short(tree.get(path)),
                                short(entry)))
                    break


def installed_specs(w, model):
    return dict((n, w['universe'][p]) for n, p in model.installed.items())


# -- operations

def do_build(op, spec):
    from ipkg.build import Formula
    from ipkg.environments import Environment
    from ipkg.repositories import LocalPackageRepository, PackageRepository
    env = Environment(E.spell(op['env'])) if op.get('env') else None
    formula = Formula.from_file(formula_path(spec))(env)
    keep = not op.get('keep')
    if op.get('update'):
        LocalPackageRepository(op['repo']).build_formula(formula, keep)
    else:
        repo = PackageRepository(op['repo']) if op.get('repo') else None
        formula.build(op['dir'], keep, repo)


def build_argv(op, spec):
    words = ['build']
    if op.get('env'):
        words += ['-e', E.spell(op['env'])]
    if op.get('repo'):
        words += ['-r', E.spell(op['repo'])]
    if op.get('update'):
        words.append('-u')
    else:
        words += ['-p', E.spell(op['dir'])]
    if op.get('keep'):
        words.append('-k')
    if op.get('verbose'):
        words.append('-v')
    return words + [E.spell(formula_path(spec), True)]


def unpacked(spec):
    """({path: entry}, directories) of the unpacked sources."""
    files, directories = {}, set()
    for path, mode, data in source_files(spec):
        if not isinstance(data, tuple):
            # zipfile does not restore permissions
            files[path] = ('f', 0644 if spec['kind'] == 'zip' else mode, data)
        elif data[0] == 'link':
            files[path] = ('l', data[1])
        elif data[0] == 'hard':
            files[path] = files[data[1]]
        else:
            directories.add(path)
    return files, directories


def check_sources(w, result):
    """C16: what configure was given is the whole archive, patched."""
    for record in result.exec_log:
        if 'sources' not in record:
            continue
        root = posixpath.basename(record['cwd'])
        specs = [s for s in w['formulas'].values() if s['root'] == root]
        if not specs:
            yield V('C16', 'wrong-source-directory',
                    'configure ran in %s' % record['cwd'])
            continue
        expected, directories = unpacked(specs[0])
        path, text = patched_source(specs[0])
        if path is not None:
            expected[path] = ('f', expected[path][1], text)
        cut = len(record['cwd']) + 1
        found = dict((p[cut:], e) for p, e in record['sources'].items()
                     if e[0] != 'd')
        directories -= set(p[cut:] for p in record['sources'])
        if directories:
            yield V('C16', 'partial-sources', '%s was built from sources '
                    'without %s' % (root, sorted(directories)[0]))
        for path in sorted(set(found) | set(expected)):
            if found.get(path) != expected.get(path):
                yield V('C16', 'partial-sources', '%s was built from sources '
                        'where %s is %s instead of %s' % (
                            root, path, short(found.get(path)),
                            short(expected.get(path))))
                break


def short(entry):
    if entry is None:
        return 'missing'
    if entry[0] == 'f':
        return '%o, %d bytes %r' % (entry[1], len(entry[2]), entry[2][:20])
    return repr(entry)


def check_dependencies(w, result, base):
    """C13: when a build is configured its dependencies are there."""
    for record in result.exec_log:
        if 'sources' not in record or record.get('prefix') is None:
            continue
        root = posixpath.basename(record['cwd'])
        specs = [s for s in w['formulas'].values() if s['root'] == root]
        if not specs:
            continue
        node = record['disk'].get(record['prefix'] + '/.ipkg.meta')
        have = {}
        if node is not None:
            try:
                have = json.loads(node.data)['packages']
            except (ValueError, KeyError):
                pass
        queue = list(specs[0]['dependencies'])
        while queue:
            requirement = queue.pop()
            name = W.split_requirement(requirement)[0]
            if name not in have or not W.satisfies(have[name], requirement):
                yield V('C13', 'built-without-dependency', '%s was built '
                        'with %s but it needs %s' % (
                            root, have.get(name, {}).get('version', 'no ' +
                                                         name), requirement))
                break
            queue.extend(d for d in have[name].get('dependencies') or ()
                         if W.split_requirement(d)[0] not in have)


def env_unchanged(state, prefix, before, note, loose=(), replaced=()):
    """C11: the environment is what it was."""
    machine = state.machine
    after = E.files_of(machine.disk, prefix)
    for path in sorted(set(before) | set(after)):
        a, b = before.get(path), after.get(path)
        if a == b or path in loose:
            continue
        what = 'created' if a is None else 'removed' if b is None \
            else 'modified'
        yield V('C11', 'env-' + what, '%s %s %s in %s' % (note, what, path,
                                                          prefix))
        return
    model = state.envs[prefix]
    view = E.look(machine, prefix, model.config.keys())
    others = lambda packages: dict((n, p) for n, p in packages.items()
                                   if n not in replaced)
    if view.error:
        yield V('C11', 'env-record', '%s %s' % (note, view.error))
    elif others(view.packages) != others(model.installed):
        yield V('C11', 'env-packages', '%s left %s in %s, there was %s' % (
            note, sorted(view.packages.values()), prefix,
            sorted(model.installed.values())))
    elif view.packages != model.installed:
        yield V('C11', 'env-replaced-package', '%s replaced %s by %s in %s'
                % (note, ', '.join(sorted(model.installed[n]
                                          for n in replaced)),
                   ', '.join(sorted(view.packages.get(n, 'nothing')
                                    for n in replaced)), prefix))
    elif view.config != model.config:
        yield V('C11', 'env-config', '%s changed the configuration' % note)


def tmp_tree(disk):
    return set(disk.tree('/tmp'))


def conflict(model, wanted):
    """Packages of the environment which the dependencies replace."""
    return [n for n in wanted if n in model.installed]


def step_build(state, op):
    machine, w = state.machine, state.world
    spec = w['formulas'][op['formula']]
    base = op.get('repo')
    local = base and '://' not in base
    package_dir = '%s/%s' % (base, spec['name']) if op.get('update') \
        else op['dir']
    target = '%s/%s' % (package_dir, package_filename(spec))
    if op.get('power'):
        machine.settle()
    prefix = op.get('env')
    model = state.envs[prefix] if prefix else None
    env_before = E.files_of(machine.disk, prefix) if prefix else {}
    index = {}
    if base:
        error, index = view_index(machine, base)
        index = index or {}
    before = machine.disk.tree(package_dir)
    old_packages = on_disk(machine.disk, base) if local else {}
    tmp_before = tmp_tree(machine.disk)
    allowed = [package_dir, '/tmp'] + ([prefix] if prefix else []) + \
        ([w['cache']] if w.get('cache') else [])
    if op.get('update'):
        allowed.append(base)
    outside = scenario.Outside(state, allowed)

    stale = bad_cache(state)
    words = build_argv(op, spec)
    if op.get('via') == 'cli':
        func = lambda: E.cli(words)
    else:
        func = lambda: do_build(op, spec)
    result = machine.run('build', func, op)
    faulted = scenario.was_faulted(result, op)
    others_faulted = faulted
    if stale:
        # downloading again is not required
        faulted = True
    status = result.status
    note = '[%s] [%s] ' % (', '.join(result.fired), result.brief())
    verb = 'building %s%s' % (op['formula'],
                              ' in %s' % prefix if prefix else '')
    found = []

    def report(props, klass, detail):
        for prop in props.split():
            found.append(V(prop, klass, note + detail))

    if status == 'hung':
        report('C13 C10', 'hang', '%s does not end' % verb)
        status = 'killed'

    # should it have worked?
    installed = installed_specs(w, model) if model else {}
    wanted = {}
    needed = closure(index, installed, spec['dependencies'], wanted) \
        if not (spec['dependencies'] and not base) else None
    if needed is None and not base:
        needed = closure({}, installed, spec['dependencies'])
    known, unknown = touched(state, base, spec, needed)
    net_corrupt = [f for f in result.fired if f == 'net corrupt']
    cannot = spec['fails'] or needed is None or known
    if status == 'ok' and needed is None:
        report('C10 C13', 'built-without-dependency', '%s succeeded without '
               'its dependencies' % verb)
    elif status == 'ok' and spec['fails'] and spec['fails'] != 'truncated':
        report('C10 C16' if spec['fails'] in BAD_SOURCES else 'C10',
               'failure-ignored', '%s succeeded although it cannot (%s)'
               % (verb, spec['fails']))
    if not cannot and not unknown and not faulted and status != 'ok' \
       and not net_corrupt:
        report('C10', 'failed-without-fault',
               '%s failed although nothing went wrong' % verb)
        if spec['algo']:
            report('C09', 'correct-content-refused', '%s failed although '
                   'nothing is corrupted' % verb)
    if known or net_corrupt or spec['fails'] == 'checksum':
        what = ', '.join(known) or 'what was downloaded'
        if status == 'ok' and not unknown:
            report('C09', 'corrupt-accepted',
                   '%s succeeded although %s is corrupted' % (verb, what))
        elif [r for r in result.exec_log if 'sources' in r
              and not posix_only_patch(known, spec)]:
            report('C09', 'corrupt-used', '%s went on although %s is '
                   'corrupted' % (verb, what))
    trusted = not unknown and not known and not net_corrupt
    if stale and status == 'error' and not cannot and not unknown and \
       not others_faulted and set(stale) <= set(bad_cache(state)):
        report('C08 C09', 'bad-cache-kept', '%s failed and left what is '
               'corrupted in the cache' % verb)

    # the package
    after = machine.disk.tree(package_dir)
    node = after.get(target)
    produced = node is not None and node != before.get(target)
    for path in sorted(set(before) | set(after)):
        a, b = before.get(path), after.get(path)
        if a == b or path == target or (a or b)[0] == 'd' and (
                not a or not b or a[0] == b[0]):
            continue
        if a is not None or path.endswith('.ipkg'):
            report('C10', 'other-file', '%s changed %s' % (verb, path))
        elif status == 'ok':
            report('C10', 'litter', '%s left %s' % (verb, path))
    if node is None:
        if before.get(target) is not None:
            report('C10', 'package-removed', '%s (%s) removed the previous '
                   'package' % (verb, status))
        elif status == 'ok':
            report('C10', 'no-package', '%s succeeded without a package'
                   % verb)
    elif produced and trusted:
        wrong = check_package(spec, node[2], prefix)
        if wrong:
            report('C10', 'wrong-package', 'after %s (%s) the package %s'
                   % (verb, status, wrong))
            if stale:
                report('C09', 'corrupt-packaged', 'with a corrupted cache, '
                       'after %s (%s) the package %s' % (verb, status, wrong))
        elif status == 'ok' and op.get('try') and not spec['dependencies']:
            found.extend(roundtrip(machine, spec, target, node[2],
                                   op['try'], note))
    elif status == 'ok' and not produced:
        report('C10', 'package-not-replaced', '%s succeeded, the package is '
               'still the previous one' % verb)
    if produced and known and not unknown:
        report('C09', 'corrupt-packaged', '%s made a package although %s is '
               'corrupted' % (verb, ', '.join(known)))

    if trusted:
        for violation in check_sources(w, result):
            found.append(violation)
            if stale:
                report('C09', 'corrupt-used', 'with a corrupted cache, ' +
                       violation.detail)
        if stale and result.exec_log:
            found.extend(bad_dependencies(w, result))
    found.extend(v for v in check_dependencies(w, result, base))

    # the environment and the temporary directory
    power = bool(op.get('power')) and status == 'killed'
    if prefix:
        # an error in the cleanup itself cannot be repaired
        children = [f for f in result.fired if f.startswith('child ')
                    or f.startswith('net ')]
        others = [f for f in result.fired if f not in children]
        in_cleanup = status != 'ok' and (
            others and (produced or len(others) > 1 or cannot or
                        children) or
            [f for f in others if f.startswith('full@') or f.split('@')[-1]
             in ('unlink', 'rmdir', 'rename', 'listdir')])
        if status == 'killed' or in_cleanup:
            model = state.envs[prefix] = model.clone()
            if env_before != E.files_of(machine.disk, prefix) or \
               E.look(machine, prefix).packages != model.installed:
                model.lost = True
        elif not model.lost:
            loose = state.extra['litter'].get(prefix, frozenset())
            if result.fired:
                # what an interrupted installation of a dependency left
                for meta in reachable(index, spec):
                    loose = loose | frozenset(meta['files'])
                state.extra['litter'] = dict(state.extra['litter'],
                                             **{prefix: loose})
            # packages which this build cannot use (a known finding)
            replaced = conflict(model, wanted)
            files = set(loose)
            for name in replaced:
                files.update(wanted[name]['files'])
                files.update(e['path'] for e in installed[name]['files'])
            found.extend(env_unchanged(state, prefix, env_before,
                                       note + verb, files, replaced))
            if [v for v in found if v.prop == 'C11']:
                model = state.envs[prefix] = model.clone()
                model.lost = True
    if status == 'ok' and not op.get('keep') and \
       state.extra.get('calm', True):
        left = tmp_tree(machine.disk) - tmp_before
        if left:
            report('C11', 'build-directory-left', '%s left %s'
                   % (verb, sorted(left)[0]))

    if status == 'ok' and op.get('keep') and \
       spec['root'] not in [posixpath.basename(p) for p in
                            tmp_tree(machine.disk) - tmp_before]:
        report('C11', 'build-directory-not-kept', '%s did not keep the '
               'sources' % verb)

    # the index
    if op.get('update'):
        found.extend(judge_index(state, op, base, index, old_packages, status,
                                 note, verb, [package_filename(spec)],
                                 power))
    found.extend(outside.check(state, note + verb))
    if power:
        machine.settle()
    return result, found


def posix_only_patch(known, spec):
    """Patches are checked after the sources: nothing is configured."""
    return False


def roundtrip(machine, spec, path, data, prefix, note):
    """Installing the package elsewhere gives its files back."""
    meta = parse_package(data)[0]

    other = machine.clone()
    other.traces = None
    parent = posixpath.dirname(prefix)
    other.disk.makedirs(parent)

    def install():
        from ipkg.environments import Environment
        env = Environment(prefix)
        env.directories.create()
        env.install(path)
    result = other.run('install', install)
    if not result.ok:
        yield V('C10', 'cannot-install', '%sthe package of %s cannot be '
                'installed: %s' % (note, fid_of(spec), result.brief()))
        return
    expected = W.installed_files(dict(
        files=spec['outputs'], build_prefix=meta['build_prefix']), prefix)
    found = E.files_of(other.disk, prefix)
    for rel in sorted(set(expected) | set(found)):
        if expected.get(rel) != found.get(rel):
            yield V('C10', 'roundtrip', '%sonce installed, %s of %s is %s '
                    'instead of %s' % (note, rel, fid_of(spec),
                                       short(found.get(rel)),
                                       short(expected.get(rel))))
            return


def judge_index(state, op, base, old_index, old_packages, status, note, verb,
                filenames, power=False, complete=False):
    """C12. ``filenames``: packages the operation may (re)build.

    ``complete``: it was to list everything there is.
    """
    machine = state.machine
    found = []

    def report(klass, detail):
        found.append(V('C12', klass, note + detail))
    error, view = view_index(machine, base)
    if error is not None:
        report('index-unreadable', 'after %s (%s): %s' % (verb, status,
                                                          error))
        return found
    packages = on_disk(machine.disk, base)
    true = true_entries(packages)
    rels = set(rel for rel in packages
               if posixpath.basename(rel) in filenames)
    same = lambda a, b: a is not None and b is not None and \
        normal(a) == normal(b)
    if complete:
        wanted = dict((k, v) for k, v in true.items() if v is not None)
        exact = sorted(wanted) == sorted(view) and all(
            same(view[k], wanted[k]) for k in view)
        as_before = sorted(old_index) == sorted(view) and all(
            same(view[k], old_index[k]) for k in view)
        if status == 'ok' and not exact:
            report('index-not-exact', 'after %s succeeded: %s' % (
                verb, difference(wanted, view)))
        elif not exact and not as_before:
            report('index-neither', 'after %s (%s): %s' % (
                verb, status, difference(old_index, view)))
        return found
    for rel in sorted(set(old_index) | set(view)):
        was, now = old_index.get(rel), view.get(rel)
        if now is None:
            report('index-entry-lost', 'after %s (%s), %s is not listed any '
                   'more' % (verb, status, rel))
        elif same(was, now):
            if status == 'ok' and rel in rels and \
               not same(now, true.get(rel)):
                report('index-entry-stale', 'after %s succeeded, %s is still '
                       'listed as it was' % (verb, rel))
        elif rel not in rels:
            report('index-other-entry', 'after %s (%s), %s is listed '
                   'otherwise: %s' % (verb, status, rel,
                                      difference({rel: was}, {rel: now})))
        elif not same(now, true.get(rel)):
            report('index-untrue', 'after %s (%s), what is listed for %s is '
                   'not what it is: %s' % (verb, status, rel, difference(
                       {rel: true.get(rel)}, {rel: now})))
    if status == 'ok':
        for rel in sorted(rels):
            if rel not in view and packages[rel] != old_packages.get(rel):
                report('index-entry-missing', 'after %s succeeded, %s is not '
                       'listed' % (verb, rel))
    return found


def difference(wanted, found):
    for rel in sorted(set(wanted) | set(found)):
        a, b = wanted.get(rel), found.get(rel)
        if a is None and b is None:
            continue
        if a is None:
            return '%s is listed' % rel
        if b is None:
            return '%s is not listed' % rel
        a, b = normal(a), normal(b)
        for key in sorted(set(a) | set(b)):
            if a.get(key) != b.get(key):
                return '%s of %s is %r instead of %r' % (
                    key, rel, b.get(key), a.get(key))
    return 'the same'


def step_mkrepo(state, op):
    machine, w = state.machine, state.world
    base = op['repo']
    if op.get('power'):
        machine.settle()
    error, index = view_index(machine, base)
    index = index or {}
    old = on_disk(machine.disk, base)
    before = machine.disk.tree(base)
    outside = scenario.Outside(state, [base, '/tmp'])

    def func():
        from ipkg.repositories import LocalPackageRepository
        LocalPackageRepository(base).update_metadata()
    if op.get('via') == 'cli':
        func = lambda: E.cli(['mkrepo', E.spell(base)])
    result = machine.run('mkrepo', func, op)
    status = 'killed' if result.status == 'hung' else result.status
    faulted = scenario.was_faulted(result, op)
    note = '[%s] [%s] ' % (', '.join(result.fired), result.brief())
    verb = 'updating %s' % base
    found = []
    broken = [rel for rel, data in old.items()
              if parse_package(data) is None]
    if result.status == 'hung':
        found.append(V('C12', 'hang', note + verb + ' does not end'))
    if not faulted and status != 'ok' and not broken:
        found.append(V('C12', 'failed-without-fault', '%s%s failed although '
                       'nothing went wrong' % (note, verb)))
    power = bool(op.get('power')) and status == 'killed'
    found.extend(judge_index(state, op, base, index, old, status, note, verb,
                             [], power, True))
    after = machine.disk.tree(base)
    for path in sorted(set(before) | set(after)):
        rel = path[len(base) + 1:]
        if before.get(path) != after.get(path) and \
           not rel.startswith('repository.json'):
            found.append(V('C12', 'package-changed', '%s%s changed %s'
                           % (note, verb, path)))
            found.append(V('C19', 'package-changed', '%s%s changed %s'
                           % (note, verb, path)))
    found.extend(outside.check(state, note + verb))
    if power:
        machine.settle()
    return result, found


def step_tamper(state, op):
    """Something changes a file: not a command."""
    disk = state.machine.disk
    tampered = state.extra['tampered'] = dict(state.extra['tampered'])
    path = op['path']
    how = op['how']
    result = Nothing()
    if how == 'restore':
        if path in tampered:
            disk.put(path, tampered.pop(path))
            state.machine.settle()
        return result, []
    node = disk.get(path)
    if how == 'put':
        spec = state.world['universe'][op['pid']]
        disk.put(path, W.package_bytes(spec))
    elif node is None or node.kind != 'f':
        return result, []
    elif how == 'remove':
        disk.remove(path)
    else:
        data = node.data
        at = int(op.get('at', 0) * len(data))
        if how == 'flip':
            if not data:
                return result, []
            at = min(at, len(data) - 1)
            new = data[:at] + chr(ord(data[at]) ^ op.get('bits', 1)) + \
                data[at + 1:]
        elif how == 'truncate':
            new = data[:at]
        elif how == 'append':
            new = data + 'x' * (1 + at % 9)
        elif how == 'empty':
            new = ''
        elif how == 'other':
            # another valid file of the same kind
            other = disk.get(op['other'])
            if other is None:
                return result, []
            new = other.data
        else:
            raise ValueError(how)
        if new == data:
            return result, []
        tampered.setdefault(path, data)
        if tampered[path] == new:
            del tampered[path]
        disk.put(path, new, node.mode)
    state.machine.settle()
    return result, []


class Nothing(object):
    """The result of an operation which is no process."""
    status = 'ok'
    fired = ()
    kinds = ()
    opened = ()
    requests = ()
    children = ()
    exec_log = ()
    switches = 0
    exc = None

    def brief(self):
        return 'done'


def batch_expectation(w, index, installed, formulas):
    """{fid: must be built} when nothing goes wrong, with a fresh index."""
    listed = set(entry_key(m) for m in index.values())
    todo = {}
    for fid, spec in formulas.items():
        exists = [m for m in index.values()
                  if m['name'] == spec['name'] and
                  m['version'] == spec['version'] and
                  str(m['revision']) == str(spec['revision'])]
        if not exists:
            todo[fid] = spec
    index = dict(index)
    built = set()
    progress = True
    while progress:
        progress = False
        for fid in sorted(todo):
            spec = todo[fid]
            if fid in built or spec['fails']:
                continue
            # formulas it has to wait for
            waits = [f for f in sorted(todo) if f not in built and f != fid
                     and not todo[f]['fails']
                     and any(W.split_requirement(d)[0] == todo[f]['name']
                             for d in spec['dependencies'])]
            if closure(index, installed, spec['dependencies']) is None:
                continue
            index['built ' + fid] = {
                'name': spec['name'], 'version': spec['version'],
                'revision': str(spec['revision']),
                'platform': spec['platform'] or W.PLATFORM,
                'dependencies': spec['dependencies'],
                'files': [e['path'] for e in spec['outputs']]}
            built.add(fid)
            progress = True
    return built, set(todo)


def step_batch(state, op):
    machine, w = state.machine, state.world
    base = op['repo']
    prefix = op.get('env')
    model = state.envs[prefix] if prefix else None
    if op.get('power'):
        machine.settle()
    error, index = view_index(machine, base)
    index = index or {}
    old = on_disk(machine.disk, base)
    before = machine.disk.tree(base)
    env_before = E.files_of(machine.disk, prefix) if prefix else {}
    tmp_before = tmp_tree(machine.disk)
    formulas = w['formulas']
    installed = installed_specs(w, model) if model else {}
    must, todo = batch_expectation(w, index, installed, formulas)
    allowed = [base, '/tmp'] + ([prefix] if prefix else []) + \
        ([w['cache']] if w.get('cache') else [])
    outside = scenario.Outside(state, allowed)

    def func():
        from ipkg.environments import Environment
        from ipkg.repositories import LocalPackageRepository, \
            FormulaRepository
        repository = LocalPackageRepository(base)
        env = Environment(E.spell(prefix)) if prefix else None
        repository.build_formulas(FormulaRepository(FORMULAS), env)
    if op.get('via') == 'cli':
        words = ['build-repository'] + (['-e', E.spell(prefix)] if prefix else []) + \
            [E.spell(base), E.spell(FORMULAS)]
        func = lambda: E.cli(words)
    result = machine.run('batch', func, op)
    status = result.status
    faulted = scenario.was_faulted(result, op)
    note = '[%s] [%s] ' % (', '.join(result.fired), result.brief())
    verb = 'building %s%s' % (base, ' in %s' % prefix if prefix else '')
    found = []

    def report(props, klass, detail):
        for prop in props.split():
            found.append(V(prop, klass, note + detail))
    if status == 'hung':
        report('C13', 'hang', '%s does not end' % verb)
        status = 'killed'
    if status == 'error' and not faulted:
        report('C13', 'failed-without-fault',
               '%s failed although nothing went wrong' % verb)
    isolated = [f for f in result.fired
                if f.startswith('child ') or f.startswith('net ')]
    if status == 'error' and faulted and \
       len(isolated) == len(result.fired):
        # a failing build is no reason to stop
        report('C13', 'batch-stopped', '%s stopped at the first build which '
               'failed' % verb)

    packages = on_disk(machine.disk, base)
    by_rel = {}
    for fid, spec in formulas.items():
        by_rel['%s/%s' % (spec['name'], package_filename(spec))] = spec
    new = []
    for rel in sorted(set(old) | set(packages)):
        if old.get(rel) == packages.get(rel):
            continue
        if rel not in by_rel or rel not in packages:
            report('C10 C13', 'other-package', '%s (%s) changed %s'
                   % (verb, status, rel))
            continue
        if fid_of(by_rel[rel]) not in todo:
            report('C13', 'built-again', '%s built %s again' % (verb, rel))
        wrong = check_package(by_rel[rel], packages[rel], prefix)
        if wrong:
            report('C10', 'wrong-package', 'after %s (%s) %s %s'
                   % (verb, status, rel, wrong))
        new.append(rel)
    error, view = view_index(machine, base)
    if error is None:
        have = set()
        for meta in view.values():
            have.add('%s==%s:%s' % (meta['name'], meta['version'],
                                    meta['revision']))
        missing = sorted(must - have)
        if status == 'ok' and not faulted and missing:
            report('C13', 'not-built', '%s did not build %s' % (verb,
                                                                missing[0]))
        elif status == 'ok' and missing and \
                len(isolated) == len(result.fired):
            # some builds failed: those, and the ones which need them
            failed = affected(w, op, result)
            if failed is not None:
                index2 = dict(index)
                others = dict((f, s) for f, s in formulas.items()
                              if f not in failed)
                still, _ = batch_expectation(w, index2, installed, others)
                gone = sorted(still - have)
                if gone:
                    report('C13', 'failure-spread', '%s did not build %s, '
                           'which does not need %s' % (verb, gone[0],
                                                       sorted(failed)))
    if error is None or True:
        found.extend(judge_index(state, op, base, index, old, status, note,
                                 verb, [posixpath.basename(r) for r in new]))
    found.extend(check_sources(w, result))
    found.extend(check_dependencies(w, result, base))
    if prefix:
        if status == 'killed' or [f for f in result.fired
                                  if f not in isolated]:
            model = state.envs[prefix] = model.clone()
            if env_before != E.files_of(machine.disk, prefix) or \
               E.look(machine, prefix).packages != model.installed:
                model.lost = True
        elif not model.lost:
            found.extend(env_unchanged(
                state, prefix, env_before, note + verb,
                state.extra['litter'].get(prefix, ())))
    found.extend(outside.check(state, note + verb))
    if op.get('power') and status == 'killed':
        machine.settle()
    return result, found


def affected(w, op, result):
    """Formulas whose own build met a fault, or None if unsure."""
    failed = set()
    for record in result.exec_log:
        if record.get('fate'):
            roots = [s for s in w['formulas'].values()
                     if '/%s' % s['root'] in record['cwd'] + '/']
            if not roots:
                return None
            failed.update(fid_of(s) for s in roots)
    script = (op.get('net') or {}).get('script') or {}
    for number in sorted(script):
        if int(number) > len(result.requests):
            continue
        url = result.requests[int(number) - 1].split('?')[0]
        specs = [s for s in w['formulas'].values()
                 if url == s['url'] or url in [p['url'] for p in s['patches']]]
        if not specs:
            return None
        failed.update(fid_of(s) for s in specs)
    return failed


def step_unarchive(state, op):
    """C16: unpack the sources of a formula in an empty directory."""
    machine, w = state.machine, state.world
    spec = w['formulas'][op['formula']]
    target = op['target']
    if machine.disk.get(target) is not None:
        machine.disk.remove_tree(target)
    machine.disk.makedirs(target)
    outside = scenario.Outside(state, [target, '/tmp'] + (
        [w['cache']] if w.get('cache') else []))

    def func():
        from ipkg.files import vopen
        from ipkg.utils import unarchive
        return unarchive(vopen(spec['url']), target)
    result = machine.run('unarchive', func, op)
    faulted = scenario.was_faulted(result, op)
    note = '[%s] [%s] ' % (', '.join(result.fired), result.brief())
    verb = 'unpacking %s' % spec['url']
    found = []
    if result.status == 'hung':
        found.append(V('C16', 'hang', note + verb + ' does not end'))
    if result.status == 'ok':
        if spec['fails'] in BAD_SOURCES:
            found.append(V('C16', 'failure-ignored', '%s%s succeeded, it '
                           'cannot' % (note, verb)))
        elif result.value != '%s/%s' % (target, spec['root']):
            found.append(V('C16', 'wrong-root', '%s%s: the sources are said '
                           'to be in %r' % (note, verb, result.value)))
        else:
            expected, directories = unpacked(spec)
            root = '%s/%s' % (target, spec['root'])
            tree = E.files_of(machine.disk, root)
            for path in sorted(directories):
                if machine.disk.get(root + '/' + path) is None:
                    found.append(V('C16', 'partial-sources', '%s%s: %s is '
                                   'missing' % (note, verb, path)))
                    break
            for path in sorted(set(tree) | set(expected)):
                if tree.get(path) != expected.get(path):
                    found.append(V('C16', 'partial-sources', '%s%s: %s is %s '
                                   'instead of %s' % (
                                       note, verb, path,
                                       short(tree.get(path)),
                                       short(expected.get(path)))))
                    break
    elif not faulted and not spec['fails']:
        found.append(V('C16', 'failed-without-fault', '%s%s failed although '
                       'nothing went wrong' % (note, verb)))
    found.extend(outside.check(state, note + verb))
    return result, found


def step_checked(state, op):
    """Installing from a repository some files of which are corrupted."""
    machine, w = state.machine, state.world
    base = op['repo']
    model = state.envs[op['env']]
    error, index = view_index(machine, base)
    steps, complete = E.plan_install(w, model.installed, op['what'], base)
    tampered = state.extra['tampered']
    bad = []
    for what, pid in steps:
        rel = entry_key(w['universe'][pid])
        if what == 'add' and posixpath.join(base, rel) in tampered and \
           (index or {}).get(rel, {}).get('checksum'):
            bad.append(pid)
    stale = bad_cache(state)
    result, others = scenario.step_env(state, dict(op, do='install'))
    found = []
    note = '[%s] [%s] ' % (', '.join(result.fired), result.brief())
    verb = 'installing %s' % op['what']
    after = state.envs[op['env']]
    corrupt = 'net corrupt' in result.fired
    for pid in bad:
        if after.installed.get(w['universe'][pid]['name']) == pid:
            found.append(V('C09', 'corrupt-installed', '%s%s installed %s, '
                           'which is corrupted' % (note, verb, pid)))
    if result.status == 'ok' and corrupt:
        found.append(V('C09', 'corrupt-accepted', '%s%s succeeded although '
                       'what was downloaded is corrupted' % (note, verb)))
    for violation in others:
        if (bad or corrupt or stale) and \
           violation.klass.startswith('package-'):
            found.append(V('C09', 'corrupt-installed', violation.detail))
        if not bad and not stale and \
           violation.klass == 'failed-without-fault':
            found.append(V('C09', 'correct-content-refused',
                           violation.detail))
    if stale and not bad and result.status == 'error' and complete and \
       not scenario.was_faulted(result, op) and \
       set(stale) <= set(bad_cache(state)):
        found.append(V('C09', 'bad-cache-kept', '%s%s failed and left what '
                       'is corrupted in the cache' % (note, verb)))
    if (bad or stale) and result.status == 'error':
        # it failed, as it had to
        others = [v for v in others if v.klass != 'failed-without-fault']
    return result, found + others


scenario.STEPS.update({'checked': step_checked, 'unarchive': step_unarchive, 'build': step_build, 'mkrepo': step_mkrepo,
                       'batch': step_batch, 'tamper': step_tamper})
