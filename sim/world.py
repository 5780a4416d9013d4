"""Simulated worlds: packages, environments, repositories and formulas.

Everything here is written from the documented behaviour of ipkg and uses
none of its code: these are the inputs of the runs, and the reference against
which the oracles judge the outcome.
"""
import hashlib
import json
import posixpath
import rand
import re
import StringIO
import tarfile
import zipfile
import zlib

import seams
import simproc

META_FILE = '.ipkg.meta'
PLATFORM = 'debian-7.2-x86_64'

NAMES = ['alpha', 'beta', 'gamma', 'delta', 'lib-eps', 'zeta_2', 'Eta',
         'alpha-beta', 'alphabet', 'Beta', 'eps']
VERSIONS = ['1.0', '1.2', '1.10', '2.0', '2.0b1', '2.0rc1', '3', '10.1']
BUILD_PREFIXES = ['/opt/build/env', '/tmp/ipkg-build-xyz/environment',
                  '/home/builder/e1', '/srv/b', '/opt/c++/b.1']
ENV_PREFIXES = ['/home/user/env', '/py', '/srv/ipkg/prod', '/opt/build/env2',
                '/home/builder/e1/sub', '/srv/b']
# with characters which mean something to somebody
ODD_PREFIXES = ['/home/user/my env', '/opt/c++/e[1].x', '/srv/100%s/%(bin)s',
                '/srv/$HOME/b', '/home/user/.env', '/srv/c#/env',
                '/home/user/what?/e;x']


# -- contents

def byteify(obj):
    """JSON, with str instead of unicode: paths are bytes on Unix."""
    if isinstance(obj, unicode):
        return obj.encode('utf-8')
    if isinstance(obj, dict):
        return dict((byteify(k), byteify(v)) for k, v in obj.items())
    if isinstance(obj, (list, tuple)):
        return [byteify(item) for item in obj]
    return obj


_blobs = {}


def blob(size, seed):
    """Bytes, the same for the same arguments."""
    data = _blobs.get((size, seed))
    if data is None:
        if len(_blobs) > 2000:
            _blobs.clear()
        data = _blobs[size, seed] = make_blob(size, seed)
    return data


def make_blob(size, seed):
    rng = rand.Random('blob', seed)
    kind = rng.randrange(3)
    if kind == 0:
        # never starts with #! nor a Mach-O magic
        return ('B' + ''.join(chr(rng.randrange(256)) for _ in range(size))
                )[:size]
    if kind == 1:
        unit = 'line %s of a text file\n' % seed
        return (unit * (size // len(unit) + 1))[:size]
    unit = ''.join(chr(rng.randrange(256)) for _ in range(61))
    return ('B' + unit * (size // 61 + 1))[:size]


def content(entry, prefix):
    """Content of a file of a package built in ``prefix``."""
    what = entry['what']
    data = blob(entry.get('size', 100), entry['seed'])
    if what == 'blob':
        return data
    if what == 'empty':
        return ''
    if what == 'patched':
        return 'patched %d\n' % entry['seed']
    if what == 'mention':
        # mentions the prefix where nothing may be rewritten
        return 'the prefix is %s\nprefix=%s\n' % (prefix, prefix) + data
    if what == 'script':
        return '#!%s/bin/%s -u\necho %s\n' % (prefix, entry['interp'],
                                             prefix) + data
    if what == 'twice':
        return '#! %s/bin/env %s/bin/perl\r\n%s\r\n' % (prefix, prefix,
                                                       prefix) + data
    if what == 'shscript':
        return '#!/bin/sh\nexec %s/bin/x\n' % prefix + data
    if what == 'probe':
        return '#!sim probe %d\n' % entry['code']
    if what == 'barescript':
        # a first line without end of line
        return '#!%s/bin/sh' % prefix
    if what == 'pc':
        return ('# pkg-config\nprefix=%s\nexec_prefix=${prefix}\n'
                'libdir=%s/lib\nprefix=%s/other\nName: %s\n'
                % (prefix, prefix, prefix, entry['seed']))
    if what == 'pcodd':
        # written by hand
        end = ('\n', '\r\n')[entry['seed'] % 2]
        return end.join(('exec_prefix=%s' % prefix,
                         '# prefix=%s' % prefix, '  prefix=%s' % prefix,
                         'prefix=%s  ' % prefix, '', 'Libs: -L%s\t ' % prefix,
                         'prefix=%s' % prefix))
    if what == 'laodd':
        return ("# libdir='%s'\t \nlibdir='%s/lib'; x='%s'  \n\n"
                "xlibdir=%s\nlibdir='%s'" % ((prefix,) * 5))
    if what == 'pclast':
        # the line is the last one, without end of line
        return 'Name: x \n\nprefix=%s' % prefix
    if what == 'pcplain':
        return 'Name: plain\nLibs: -L%s/lib\n' % prefix
    if what == 'la':
        return ("# libtool\ndlname='x.so'\nlibdir='%s/lib'\n"
                "dependency_libs=' %s/lib/y.la'\n" % (prefix, prefix))
    if what == 'macho':
        return ('\xcf\xfa\xed\xfe\nID:%s/lib/x.dylib\nLIB:%s/lib/y.dylib\n'
                'LIB:/usr/lib/libSystem.dylib\nLIB:%s/lib/z.dylib\n%s'
                % (prefix, prefix, prefix, data.replace('\n', ' ')))
    raise ValueError(what)


def rewritable(path):
    directory = posixpath.dirname(path)
    return directory in ('bin', 'sbin') or directory.startswith('lib')


def installed_content(entry, build_prefix, prefix):
    """What the file must contain once installed in ``prefix``."""
    data = content(entry, build_prefix)
    path = entry['path']
    if build_prefix == prefix or not rewritable(path):
        return data
    if re.match(r'lib(64)?/pkgconfig/[^/]+\.pc$', path):
        return first_match(data, 'prefix=', build_prefix, prefix)
    if re.match(r'lib(64)?/[^/]+\.la$', path):
        return first_match(data, 'libdir=', build_prefix, prefix)
    if data[:2] == '#!':
        head, sep, rest = data.partition('\n')
        return head.replace(build_prefix, prefix) + sep + rest
    if data[:4] in ('\xce\xfa\xed\xfe', '\xcf\xfa\xed\xfe'):
        lines = []
        for line in data.split('\n'):
            if line.startswith('ID:'):
                line = 'ID:%s/%s' % (prefix, path)
            elif line.startswith('LIB:' + build_prefix):
                line = line.replace(build_prefix, prefix)
            lines.append(line)
        return '\n'.join(lines)
    return data


def first_match(data, start, old, new):
    lines = data.split('\n')
    for i, line in enumerate(lines):
        if line.startswith(start):
            lines[i] = line.replace(old, new)
            break
    return '\n'.join(lines)


# -- packages

def filename(spec):
    return '%s-%s-%s-%s.ipkg' % (spec['name'], spec['version'],
                                 spec['revision'], spec['platform'])


def pid_of(spec):
    return '%s==%s:%s' % (spec['name'], spec['version'], spec['revision'])


def package_meta(spec):
    return {
        'name': spec['name'],
        'version': spec['version'],
        'revision': spec['revision'],
        'platform': spec['platform'],
        'dependencies': list(spec['dependencies']),
        'homepage': spec.get('homepage'),
        'hostname': 'builder',
        'timestamp': 1390000000.25 + spec.get('seed', 0) % 1000,
        'files': [e['path'] for e in ordered(spec)],
        'build_prefix': spec['build_prefix'],
        'build_platform': PLATFORM,
        'envvars': spec.get('envvars'),
    }


def ordered(spec):
    """Files in the order of the archive: links to a file come after it."""
    files = list(spec['files'])
    rand.Random('order', spec.get('seed', 0)).shuffle(files)
    return ([f for f in files if f['kind'] != 'h'] +
            [f for f in files if f['kind'] == 'h'])


_cache = {}


def package_bytes(spec):
    key = json.dumps(spec, sort_keys=True)
    data = _cache.get(key)
    if data is None:
        if len(_cache) > 600:
            _cache.clear()
        data = _cache[key] = make_package(spec)
    return data


def make_package(spec):
    raw = StringIO.StringIO()
    tar = tarfile.open(fileobj=raw, mode='w', format=tarfile.GNU_FORMAT)

    def add(name, data, mode):
        info = tarfile.TarInfo(name)
        info.size = len(data)
        info.mode = mode
        info.mtime = 1390000000
        tar.addfile(info, StringIO.StringIO(data))
    add(META_FILE, json.dumps(package_meta(spec), indent=4), 0644)
    modes = dict((e['path'], e.get('mode')) for e in spec['files'])
    for entry in ordered(spec):
        if entry['kind'] == 'f':
            add(entry['path'], content(entry, spec['build_prefix']),
                entry['mode'])
        else:
            info = tarfile.TarInfo(entry['path'])
            info.type = tarfile.SYMTYPE if entry['kind'] == 'l' \
                else tarfile.LNKTYPE
            info.linkname = entry['to']
            info.mode = 0777 if entry['kind'] == 'l' else \
                modes[entry['to']]
            tar.addfile(info)
    tar.close()
    return seams.compressed(raw.getvalue())


def checksum(spec):
    return hashlib.sha256(package_bytes(spec)).hexdigest()


def installed_files(spec, prefix):
    """{relative path: ('f', mode, data) | ('l', target)}"""
    result = {}
    for entry in spec['files']:
        if entry['kind'] == 'f':
            result[entry['path']] = ('f', entry['mode'], installed_content(
                entry, spec['build_prefix'], prefix))
        elif entry['kind'] == 'l':
            result[entry['path']] = ('l', entry['to'])
    for entry in spec['files']:
        if entry['kind'] == 'h':
            result[entry['path']] = result[entry['to']]
    return result


def gen_files(rng, name, version, count, modes=None):
    """Files of a package. Paths belong to ``name``: no other package has
    them; versions of the same package share some of them."""
    result = []
    seen = set()

    def add(path, kind='f', **kw):
        if path in seen:
            return
        seen.add(path)
        entry = {'path': path, 'kind': kind}
        if kind == 'f':
            entry.setdefault('what', 'blob')
            entry['mode'] = 0644
            entry['seed'] = rng.randrange(10000)
            entry['size'] = rng.choice((0, 1, 40, 200, 600, 1500, 5000,
                                        5000, rng.choice((4096, 8193, 40000))))
        entry.update(kw)
        result.append(entry)

    mode = lambda *choices: rng.choice(choices)
    for _ in range(count):
        pick = rng.randrange(19)
        n = rng.randrange(1, 4)
        if pick == 0:
            add('bin/%s-%d' % (name, n), what='script',
                mode=mode(0755, 0555, 0755, 04755, 04555, 02711, 0775),
                interp=rng.choice(('python', 'sh')),
                size=mode(200, 200, 200, 9000))
        elif pick == 1:
            add('bin/%s-sh' % name, what=mode('shscript', 'barescript'),
                mode=mode(0755, 0700), size=100)
        elif pick == 2:
            add('sbin/%sd' % name, what=mode('script', 'blob'), interp='sh',
                mode=0755)
        elif pick == 3:
            add('lib/lib%s.so.%d' % (name, n), what='blob',
                mode=mode(0755, 0644, 0444))
        elif pick == 4:
            target = 'lib%s.so.%d' % (name, n)
            add('lib/%s' % target, what='blob', mode=0755)
            if rng.randrange(3):
                add('lib/lib%s.so' % name, 'l', to=target)
            else:
                add('lib/lib%s.so' % name, what='blob', mode=0755)
        elif pick == 5:
            add('%s/pkgconfig/%s.pc' % (mode('lib', 'lib64'), name),
                what=mode('pc', 'pc', 'pcplain', 'pcodd', 'pcodd', 'pclast'), mode=mode(0644, 0444))
        elif pick == 6:
            add('%s/lib%s.la' % (mode('lib', 'lib64'), name),
                what=mode('la', 'la', 'laodd'), mode=mode(0755, 0444))
        elif pick == 7:
            add('lib/lib%s.%d.dylib' % (name, n), what='macho',
                mode=mode(0755, 0555), size=60)
        elif pick == 8:
            add('share/%s/data%d' % (name, n), what='blob',
                mode=mode(0644, 0600))
        elif pick == 9:
            add('share/common/%s.txt' % name, what='mention', size=80)
        elif pick == 10:
            add('include/%s.h' % name, what=mode('blob', 'empty'))
        elif pick == 11:
            add('share/doc/%s/deep/er/file %d' % (name, n), what='blob')
        elif pick == 12:
            add('libexec/%s/helper' % name, what='script', interp='sh',
                mode=0755, size=50)
        elif pick == 13:
            add('%s.rc' % name, what='mention', size=10)
        elif pick == 15:
            # files which are easily overlooked
            add(mode('share/%s/.hidden', 'lib/.%s.deps', 'libexec/%s/.d/x',
                     '.%s-profile') % name, what='blob',
                mode=mode(0644, 0600))
        elif pick == 16:
            add('libexec/%s/su%d' % (name, n), what='blob',
                mode=mode(04755, 02755, 04555, 0711, 0664, 01644))
        elif pick == 17:
            add('share/%s/%s' % (name, 'x' * mode(90, 120)), what='blob',
                size=10)
            add('bin/%s-twice' % name, what='twice', mode=mode(0755, 0555),
                size=30)
        elif pick == 18:
            add('share/%s/v%d/index' % (name, n), what='blob')
            add('share/%s/current' % name, 'l', to='v%d' % n)
            add('bin/%s-link' % name, 'l',
                to=mode('../libexec/%s/helper' % name, '/usr/bin/env',
                        '%s-sh' % name))
        else:
            base, copy, what = rng.choice((
                ('share/%s/original', 'share/%s/same%d', 'blob'),
                ('bin/%s-tool', 'bin/%s%d', 'script'),
                ('bin/%s-tool', 'sbin/%s%d', 'script'),
                ('lib/%s.tool', 'share/%s/same%d', 'script'),
                ('lib/pkgconfig/%s-x.pc', 'lib/pkgconfig/%s-%d.pc', 'pc')))
            add(base % name, what=what, interp='perl',
                mode=mode(0755, 0555) if what == 'script' else 0644)
            add(copy % (name, n), 'h', to=base % name)
    if rng.randrange(4) == 0:
        add('share/%s/dangling' % name, 'l', to='nowhere/%s' % version)
    if not result:
        add('share/%s/only' % name)
    for entry in result:
        if modes and entry['kind'] == 'f':
            entry['mode'] = rng.choice(modes)
    # a hard link keeps the mode of its original
    return result


def gen_requirement(rng, name, versions, forms=None):
    """A requirement which one of these versions satisfies at least."""
    form = rng.choice(forms or ('name', 'name', 'name', '==', '>=', '<=',
                                '!=', '>', '<', '<>', 'spaces', 'platform'))
    pick = rng.choice(versions)
    others = [v for v in versions if v != pick]
    if form == 'name' or (form == '!=' and not others):
        return name
    if form in ('==', '>=', '<='):
        return name + form + pick
    if form == '!=':
        return name + ','.join('!=' + v for v in rng.sample(
            others, rng.randrange(len(others)) + 1))
    if form == 'spaces':
        return '%s %s %s' % (name, rng.choice(('==', '>=')), pick)
    if form == 'platform':
        return '%s:%s' % (PLATFORM, name) + rng.choice(('', '==' + pick))
    lower = [v for v in VERSIONS if version_key(v) < version_key(pick)]
    upper = [v for v in VERSIONS if version_key(v) > version_key(pick)]
    terms = []
    if lower and form in ('>', '<>'):
        terms.append('>' + rng.choice(lower))
    if upper and form in ('<', '<>'):
        terms.append('<' + rng.choice(upper))
    if others and form == '<>' and rng.randrange(3) == 0:
        terms.append('!=' + rng.choice(others))
        if rng.randrange(2):
            terms.append('!=' + rng.choice(others))
    if lower and form in ('>', '<>') and rng.randrange(3) == 0:
        terms.append(rng.choice(('>', '>=', '>')) + rng.choice(lower))
    if upper and form in ('<', '<>') and rng.randrange(3) == 0:
        terms.append(rng.choice(('<', '<=', '<')) + rng.choice(upper))
    if form == '<>' and rng.randrange(4) == 0:
        terms.append(rng.choice(('>=', '<=')) + pick)
    if rng.randrange(3) == 0:
        rng.shuffle(terms)
    return name + rng.choice((',', ', ')).join(terms)


def gen_universe(rng, names=None, max_versions=3, deps=True, files=(1, 6),
                 forms=None, envvars=True, decoys=True):
    """{pid: spec}, and {name: the requirement used for it everywhere}."""
    names = names or rng.sample(NAMES, rng.choice((2, 3, 3, 4)))
    universe = {}
    requirement = {}
    versions = {}
    for name in names:
        versions[name] = rng.sample(VERSIONS, rng.choice(
            [n for n in (1, 2, 2, 3, 4) if n <= max_versions]))
        revisions = {}
        for version in versions[name]:
            revisions[version] = \
                list(rng.choice((('1', '2'), ('1', '2'), ('9', '10'),
                                 ('2', '11')))) \
                if rng.randrange(5) == 0 \
                else [rng.choice(('1', '1', '2', '10'))]
        versions[name] = [(v, r) for v in versions[name]
                          for r in revisions[v]]
        requirement[name] = gen_requirement(
            rng, name, [v for v, _ in versions[name]], forms)
    for i, name in enumerate(names):
        for version, revision in versions[name]:
            dependencies = []
            if deps:
                for other in names[i + 1:]:
                    if rng.randrange(3) == 0:
                        dependencies.append(requirement[other])
            spec = {
                'name': name, 'version': version,
                'revision': revision,
                'platform': rng.choice(('any', 'any', PLATFORM)),
                'dependencies': dependencies,
                'build_prefix': rng.choice(BUILD_PREFIXES),
                'homepage': rng.choice((None, 'http://%s.org' % name)),
                'seed': rng.randrange(100000),
                'files': gen_files(rng, name, version,
                                   rng.randrange(*files)),
                'envvars': None,
            }
            if envvars and rng.randrange(3) == 0:
                var = name.replace('-', '_')
                spec['envvars'] = {
                    '%s_HOME' % var: '%(prefix)s/share/' + name,
                    '%s_OPTS' % var: rng.choice(
                        ('-v %s' % version, '100%', '%(nothing)s', 'a b',
                         '%d items', '%(lib)s:%(bin)s')),
                }
            universe[pid_of(spec)] = spec
    if decoys and rng.randrange(3) == 0:
        # a package nobody can use here, more recent than the others
        name = rng.choice(names)
        spec = {'name': name, 'version': '9.9', 'revision': '1',
                'platform': 'osx-10.9-x86_64', 'dependencies': [],
                'build_prefix': '/opt/osx', 'homepage': None, 'seed': 1,
                'files': gen_files(rng, name, '9.9', 2), 'envvars': None}
        universe[pid_of(spec)] = spec
    return universe, requirement


def gen_user_files(rng, names):
    """Files of the user in an environment."""
    result = []
    for path in ('etc/user.conf', 'share/common/mine.txt', 'bin/mytool',
                 'lib/mine/x', 'share/%s/notes' % rng.choice(names),
                 '.hidden', 'tmp/session', 'bin/.mine',
                 'share/%s/.keep' % rng.choice(names), 'lib/pkgconfig/.x',
                 'share/doc/%s/deep/er/.y' % rng.choice(names)):
        if rng.randrange(2):
            result.append({'path': path, 'kind': 'f', 'what': 'blob',
                           'size': 30, 'seed': rng.randrange(1000),
                           'mode': rng.choice((0644, 0600, 0755))})
    if rng.randrange(3) == 0:
        result.append({'path': 'share/mylink', 'kind': 'l',
                       'to': 'common/mine.txt'})
    return result


def put_files(disk, prefix, entries, build_prefix=None):
    for entry in entries:
        path = posixpath.join(prefix, entry['path'])
        if entry['kind'] == 'l':
            disk.put_link(path, entry['to'])
        else:
            disk.put(path, content(entry, build_prefix or prefix),
                     entry['mode'])


# -- requirements, as used in the generated worlds

def version_key(version):
    """Order of the versions in VERSIONS."""
    return {'1.0': 1, '1.2': 2, '1.10': 3, '2.0b1': 4, '2.0rc1': 5, '2.0': 6,
            '3': 7, '9.9': 9, '10.1': 10}[version]


def split_requirement(requirement):
    """(name, [(operator, version)])"""
    match = re.match(r'^(?:%s:)?([A-Za-z0-9_\-]+)\s*(.*)$' % PLATFORM,
                     requirement)
    name, terms = match.groups()
    return name, [re.match(r'^\s*([=!<>]+)\s*(\S+)\s*$', term).groups()
                  for term in terms.split(',') if term]


COMPARE = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b,
           '>=': lambda a, b: a >= b, '<=': lambda a, b: a <= b,
           '>': lambda a, b: a > b, '<': lambda a, b: a < b}


INVALID_REQUIREMENTS = (
    'not a requirement', 'name==', '',
    'name>=1.0.0.0.0.0.0,<2.0.0.0.0.0.0,!=1.5.0.0.0;python')


def satisfies(spec, requirement):
    if requirement in INVALID_REQUIREMENTS:
        return False
    name, terms = split_requirement(requirement)
    if spec['name'] != name:
        return False
    if spec['platform'] not in ('any', PLATFORM):
        return False
    return all(COMPARE[form](version_key(spec['version']),
                             version_key(version))
               for form, version in terms)


def best(universe, pids, requirement):
    """The package a repository must choose."""
    found = [p for p in pids if satisfies(universe[p], requirement)]
    if not found:
        return None
    found.sort(key=lambda p: (version_key(universe[p]['version']),
                              int(universe[p]['revision'])))
    return found[-1]


# -- repositories

def repository_index(universe, pids, wrong=None):
    """Content of repository.json."""
    index = {}
    for pid in pids:
        spec = universe[pid]
        meta = package_meta(spec)
        meta['checksum'] = checksum(spec)
        index.setdefault(spec['name'], []).append(meta)
    return json.dumps(index, indent=4)


def repository_path(base, spec):
    return '%s/%s/%s' % (base, spec['name'], filename(spec))


def put_repository(disk, base, universe, pids, index=True):
    disk.makedirs(base)
    for pid in pids:
        spec = universe[pid]
        disk.put(repository_path(base, spec), package_bytes(spec))
    if index:
        disk.put(base + '/repository.json', repository_index(universe, pids))


def repository_pages(url, universe, pids):
    pages = {url + '/repository.json':
             (200, {}, repository_index(universe, pids))}
    for pid in pids:
        spec = universe[pid]
        pages[repository_path(url, spec)] = (200, {}, package_bytes(spec))
    return pages


# -- source archives

def make_archive(root, files, kind, form='plain'):
    """``files``: [(path, mode, data | ('link', target) | ('hard', path) |
    ('dir',))], below ``root``."""
    root = {'dotted': './%s', 'two': 'x/%s'}.get(form, '%s') % root
    if form == 'two':
        # more than one item at the root
        files = files + [('../../b/file', 0644, 'b')]
    if kind == 'zip':
        raw = StringIO.StringIO()
        archive = zipfile.ZipFile(raw, 'w', zipfile.ZIP_DEFLATED)
        for path, mode, data in files:
            if isinstance(data, tuple):
                path, data, mode = path + '/', '', 0040755
            info = zipfile.ZipInfo(member_name(root, path),
                                   (2013, 11, 5, 1, 2, 4))
            info.external_attr = mode << 16
            info.compress_type = zipfile.ZIP_DEFLATED
            archive.writestr(info, data)
        archive.close()
        return raw.getvalue()
    raw = StringIO.StringIO()
    formats = {'ustar': tarfile.USTAR_FORMAT, 'pax': tarfile.PAX_FORMAT}
    tar = tarfile.open(fileobj=raw, mode='w',
                       format=formats.get(form, tarfile.GNU_FORMAT))
    directories = {'dotted': ['.', root], 'bare': []}.get(form, [root])
    for path in directories:
        info = tarfile.TarInfo(path)
        info.type = tarfile.DIRTYPE
        info.mode = 0755
        tar.addfile(info)
    for path, mode, data in files:
        info = tarfile.TarInfo(member_name(root, path))
        info.mode = mode
        info.mtime = 1390000000
        if isinstance(data, tuple):
            info.type = {'link': tarfile.SYMTYPE, 'hard': tarfile.LNKTYPE,
                         'dir': tarfile.DIRTYPE}[data[0]]
            if data[0] == 'hard':
                info.linkname = '%s/%s' % (root, data[1])
            elif data[0] == 'link':
                info.linkname = data[1]
            tar.addfile(info)
        else:
            info.size = len(data)
            tar.addfile(info, StringIO.StringIO(data))
    tar.close()
    data = raw.getvalue()
    if kind == 'tar.bz2':
        return seams.compressed(data)
    if kind == 'tar.xz':
        return simproc.make_xz(data)
    if kind == 'tar.gz':
        return gz(data)
    return data


def member_name(root, path):
    if path.startswith('../../'):
        return path[6:]
    return '%s/%s' % (root, path)


def gz(data):
    """gzip, without a time stamp."""
    comp = zlib.compressobj(6, zlib.DEFLATED, -zlib.MAX_WBITS)
    body = comp.compress(data) + comp.flush()

    def le32(n):
        n &= 0xffffffff
        return ''.join(chr((n >> s) & 255) for s in (0, 8, 16, 24))
    return ('\x1f\x8b\x08\x00\0\0\0\0\x02\xff' + body +
            le32(zlib.crc32(data)) + le32(len(data)))
