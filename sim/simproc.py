"""Simulated child processes.

An executable on the simulated disk is a file with an executable bit and the
content ``#!sim NAME ...``; NAME selects one of PROGRAMS.  A program works on
the simulated disk through the ordinary (dispatched) os functions, so that
every one of its effects is a step: it can fail, or be killed with the
machine.
"""
import errno
import os
import posixpath
import subprocess

import seams
import simos
from simos import HarnessError, SimKill, oserr

PIPE = subprocess.PIPE
STDOUT = subprocess.STDOUT
PROGRAMS = {}


class Exit(Exception):
    def __init__(self, code):
        self.code = code


class Context(object):
    """What a program sees."""

    def __init__(self, kernel, argv, env, cwd, stdin, words):
        self.kernel = kernel
        self.argv = argv
        self.env = env
        self.cwd = cwd
        self.stdin = stdin
        self.words = words
        self.out = []
        self.err = []

    def path(self, path):
        return posixpath.join(self.cwd, path)

    def read(self, path):
        f = seams.sim_open(self.path(path), 'rb')
        try:
            return f.read()
        finally:
            f.close()

    def write(self, path, data, mode=None):
        path = self.path(path)
        f = seams.sim_open(path, 'wb')
        try:
            f.write(data)
        finally:
            f.close()
        if mode is not None:
            self.kernel.chmod(path, mode)

    def makedirs(self, path):
        path = self.path(path)
        if path and not self.kernel.disk.get(path):
            self.makedirs(posixpath.dirname(path))
            self.kernel.mkdir(path)


def program(name):
    def wrap(func):
        PROGRAMS[name] = func
        return func
    return wrap


def find(kernel, command, cwd, env):
    """Returns the words of the first line of the executable."""
    if '/' in command:
        paths = [posixpath.join(cwd, command)]
    else:
        paths = [posixpath.join(cwd, d or '.', command)
                 for d in env.get('PATH', '/bin:/usr/bin').split(':')]
    denied = False
    for path in paths:
        node = kernel.disk.get(path)
        if node is None or node.kind == 'd':
            continue
        if not node.mode & 0111:
            denied = True
            continue
        line = node.data.split('\n', 1)[0]
        if not line.startswith('#!sim '):
            # a script of the simulated world which nothing can run
            raise oserr(errno.ENOEXEC)
        return path, line.split()[1:]
    raise oserr(errno.EACCES if denied else errno.ENOENT)


class SimPopen(object):
    def __init__(self, args, bufsize=0, executable=None, stdin=None,
                 stdout=None, stderr=None, preexec_fn=None, close_fds=False,
                 shell=False, cwd=None, env=None, universal_newlines=False,
                 startupinfo=None, creationflags=0):
        kernel = self.kernel = seams.KERNEL
        if isinstance(args, basestring):
            args = [args]
        args = [simos.as_str(a) for a in args]
        if shell:
            args = ['/bin/sh', '-c'] + args
        env = dict(os.environ if env is None else env)
        for key, value in env.items():
            if not isinstance(key, basestring) or \
               not isinstance(value, basestring):
                raise TypeError('execve() arg 3 contains a non-string value')
        self.args = args
        self.pid = kernel.next_pid
        kernel.next_pid += 1
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None
        self._how = (stdin, stdout, stderr)
        self._input = ''
        here = kernel.cur.cwd
        full_cwd = posixpath.join(here, simos.as_str(cwd)) if cwd else here
        kernel.log('exec', args, full_cwd)
        kernel.step('exec', args[0])
        if cwd:
            node = kernel.disk.get(full_cwd)
            if node is None:
                raise oserr(errno.ENOENT, cwd)
            if node.kind != 'd':
                raise oserr(errno.ENOTDIR, cwd)
        path, words = find(kernel, args[0], full_cwd, env)
        kernel.count('exec')
        record = {'argv': args, 'cwd': full_cwd, 'env': env, 'path': path,
                  'stdin': None, 'code': None, 'pid': kernel.cur.pid}
        kernel.exec_log.append(record)
        self._record = record
        self._words = words
        self._env = env
        self._cwd = full_cwd
        self._ctx = None
        if stdin == PIPE:
            self.stdin = _In(self)
        if stdout == PIPE:
            self.stdout = _Out(self, 'out')
        if stderr == PIPE:
            self.stderr = _Out(self, 'err')
        kernel.cur.children.append(self)

    def finish(self):
        """Run the child to its end, if it has not run yet."""
        if self.returncode is not None:
            return
        kernel = self.kernel
        self._record['stdin'] = self._input
        ctx = self._ctx = Context(kernel, self.args, self._env, self._cwd,
                                  self._input, self._words)
        ctx.record = self._record
        code = 0
        name = self._words[0]
        func = PROGRAMS.get(name)
        if func is None:
            raise HarnessError('no simulated program %s' % name)
        kernel.log('child', name, self.args)
        fate = kernel.child_fate(name, self.args)
        self.returncode = -99
        saved = kernel.cur.cwd
        kernel.cur.cwd = self._cwd
        try:
            if fate is not None and fate['when'] == 'start':
                code = fate['code']
            else:
                ctx.budget = fate['after'] if fate is not None else None
                try:
                    code = func(ctx) or 0
                    if fate is not None:
                        code = fate['code']
                except Exit, exc:
                    code = exc.code
                    if code == 'fate':
                        code = fate['code']
                except (OSError, IOError), exc:
                    ctx.err.append('%s: %s\n' % (name, exc))
                    code = 1
        finally:
            if not kernel.cur.dead:
                kernel.cur.cwd = saved
        self.returncode = code
        self._record['code'] = code
        if fate is not None:
            self._record['fate'] = True
        kernel.log('exit', name, code)
        if self in kernel.cur.children:
            kernel.cur.children.remove(self)
        out, err = ''.join(ctx.out), ''.join(ctx.err)
        self._out, self._err = out, err
        stdin, stdout, stderr = self._how
        if stdout != PIPE:
            self._deliver(stdout, out, 'out')
        if stderr == STDOUT:
            self._deliver(stdout, err, 'out')
            if stdout == PIPE:
                self._out += err
        elif stderr != PIPE:
            self._deliver(stderr, err, 'err')

    def _deliver(self, where, data, default):
        if not data:
            return
        proc = self.kernel.cur
        if where is None:
            (proc.out if default == 'out' else proc.err).append(data)
        elif isinstance(where, (int, long)):
            if where == 1:
                proc.out.append(data)
            elif where == 2:
                proc.err.append(data)
            else:
                seams.fd_write(where, data)
        else:
            where.write(data)
            where.flush()

    def communicate(self, data=None):
        if data:
            if self.stdin is None:
                raise HarnessError('input without a pipe')
            self._input += simos.as_str(data)
        self.finish()
        return (self._out if self.stdout else None,
                self._err if self.stderr else None)

    def wait(self):
        self.finish()
        return self.returncode

    def poll(self):
        self.finish()
        return self.returncode

    def kill(self):
        pass

    terminate = kill

    def send_signal(self, num):
        pass


class _In(object):
    def __init__(self, child):
        self.child = child

    def write(self, data):
        self.child._input += simos.as_str(data)

    def flush(self):
        pass

    def close(self):
        pass


class _Out(object):
    def __init__(self, child, which):
        self.child = child
        self.which = which
        self.pos = 0

    def _data(self):
        self.child.finish()
        return self.child._out if self.which == 'out' else self.child._err

    def read(self, size=-1):
        data = self._data()[self.pos:]
        if size >= 0:
            data = data[:size]
        self.pos += len(data)
        return data

    def readline(self):
        data = self._data()[self.pos:]
        line = data[:data.find('\n') + 1] or data
        self.pos += len(line)
        return line

    def __iter__(self):
        return iter(self.readline, '')

    def readlines(self):
        return list(self)

    def close(self):
        pass


def install():
    base = subprocess.Popen

    class PopenMeta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, (SimPopen, base))

    class Popen(object):
        __metaclass__ = PopenMeta

        def __new__(cls, *args, **kw):
            if seams.cur():
                return SimPopen(*args, **kw)
            return base(*args, **kw)
    subprocess.Popen = Popen

    def system(command):
        child = SimPopen(command, shell=True)
        code = child.wait()
        return code << 8 if code >= 0 else -code

    def popen(command, mode='r', bufsize=-1):
        child = SimPopen(command, shell=True, stdout=PIPE)
        return child.stdout
    seams.hook(os, 'system', system)
    seams.hook(os, 'popen', popen)


# -- the programs

def budget(ctx):
    """A fated program dies after so many units of work."""
    if getattr(ctx, 'budget', None) is not None:
        if ctx.budget <= 0:
            raise Exit('fate')
        ctx.budget -= 1


@program('true')
def p_true(ctx):
    return 0


@program('false')
def p_false(ctx):
    return 1


@program('env')
def p_env(ctx):
    for name in sorted(ctx.env):
        ctx.out.append('%s=%s\n' % (name, ctx.env[name]))


@program('echo')
def p_echo(ctx):
    ctx.out.append(' '.join(ctx.argv[1:]) + '\n')


@program('cat')
def p_cat(ctx):
    ctx.out.append(ctx.stdin)


@program('exit')
def p_exit(ctx):
    """exit CODE"""
    return int(ctx.argv[1])


@program('sh')
def p_sh(ctx):
    """Runs one simple command."""
    import shlex
    if ctx.argv[1:2] == ['-c']:
        words = shlex.split(ctx.argv[2])
        child = SimPopen(words, cwd=ctx.cwd, env=ctx.env, stdin=PIPE,
                         stdout=PIPE, stderr=PIPE)
        out, err = child.communicate(ctx.stdin)
        ctx.out.append(out)
        ctx.err.append(err)
        return child.returncode
    return 0


@program('cp')
def p_cp(ctx):
    """cp [-R] SRC... DST"""
    args = [a for a in ctx.argv[1:] if not a.startswith('-')]
    dst = ctx.path(args[-1])
    for src in args[:-1]:
        budget(ctx)
        target = dst
        node = ctx.kernel.disk.get(dst)
        if node is not None and node.kind == 'd':
            target = posixpath.join(dst, posixpath.basename(src))
        copy(ctx, ctx.path(src), target)


def copy(ctx, src, dst):
    kernel = ctx.kernel
    st = kernel.stat(src, False)
    kind = st.st_mode & 0170000
    if kind == 0040000:
        if kernel.disk.get(dst) is None:
            kernel.mkdir(dst)
        for name in kernel.listdir(src):
            copy(ctx, src + '/' + name, dst + '/' + name)
    elif kind == 0120000:
        budget(ctx)
        kernel.symlink(kernel.readlink(src), dst)
    else:
        budget(ctx)
        ctx.write(dst, ctx.read(src), st.st_mode & 07777)


@program('mkdir')
def p_mkdir(ctx):
    parents = '-p' in ctx.argv
    for path in ctx.argv[1:]:
        if path.startswith('-'):
            continue
        if parents:
            ctx.makedirs(path)
        else:
            ctx.kernel.mkdir(ctx.path(path))


@program('configure')
@program('setup')
def p_configure(ctx):
    prefix = None
    for arg in ctx.argv[1:]:
        if arg.startswith('--prefix='):
            prefix = arg.split('=', 1)[1]
    # what the build sees, for the oracles
    ctx.record['sources'] = ctx.kernel.disk.tree(ctx.cwd)
    ctx.record['disk'] = ctx.kernel.disk.clone()
    ctx.record['prefix'] = prefix
    budget(ctx)
    ctx.write('config.status', 'prefix=%s\n' % (prefix or '/usr/local'))
    ctx.write('Makefile', 'all:\n')


@program('make')
def p_make(ctx):
    """Builds what INSTALL.txt lists; ``make install`` installs it.

    Lines of INSTALL.txt: ``f MODE PATH SOURCE``, ``l PATH TARGET``,
    ``h PATH EXISTING`` (hard link), ``d PATH``, separated by tabs.  @PREFIX@ in a source file
    stands for the prefix given to configure.
    """
    ctx.read('Makefile')
    prefix = ctx.read('config.status').strip().split('=', 1)[1]
    lines = [l.split('\t') for l in ctx.read('INSTALL.txt').splitlines()]
    if ctx.argv[1:] == []:
        for i, words in enumerate(lines):
            budget(ctx)
            if words[0] == 'f':
                ctx.write('obj%d' % i,
                          ctx.read(words[3]).replace('@PREFIX@', prefix))
        return 0
    if ctx.argv[1:] != ['install']:
        return 2
    for i, words in enumerate(lines):
        budget(ctx)
        path = posixpath.join(prefix, words[2 if words[0] == 'f' else 1])
        if words[0] == 'd':
            ctx.makedirs(path)
            continue
        ctx.makedirs(posixpath.dirname(path))
        if ctx.kernel.disk.get(path, False) is not None:
            ctx.kernel.unlink(path)
        if words[0] == 'f':
            ctx.write(path, ctx.read('obj%d' % i), int(words[1], 8))
        elif words[0] == 'l':
            ctx.kernel.symlink(words[2].replace('@PREFIX@', prefix), path)
        elif words[0] == 'h':
            ctx.kernel.link(posixpath.join(prefix, words[2]), path)
    return 0


@program('patch')
def p_patch(ctx):
    """A patch is lines ``PATH<TAB>NEW CONTENT``."""
    if ctx.argv[1:] not in (['-p0'], ['-p', '0'], []):
        return 2
    if not ctx.stdin:
        return 2
    for line in ctx.stdin.splitlines():
        budget(ctx)
        if '\t' not in line:
            ctx.err.append('patch: malformed\n')
            return 2
        path, content = line.split('\t', 1)
        if ctx.kernel.disk.get(ctx.path(path)) is None:
            return 1
        ctx.write(path, content + '\n')


@program('xz')
def p_xz(ctx):
    """The 'xz' format here: 'SIMXZ', the length, crc, then the data."""
    import zlib
    data = ctx.stdin
    if not data.startswith('SIMXZ '):
        ctx.err.append('xz: (stdin): File format not recognized\n')
        return 1
    head, body = data.split('\n', 1)
    _, size, crc = head.split(' ')
    body = body.decode('rot13') if False else body
    half = int(size) // 2
    fated = getattr(ctx, 'budget', None) is not None
    if fated or len(body) != int(size) or \
       '%08x' % (zlib.crc32(body) & 0xffffffff) != crc:
        # xz writes what it could decode, then fails
        ctx.out.append(body[:half])
        ctx.err.append('xz: (stdin): Unexpected end of input\n')
        return 1
    ctx.out.append(body)


def make_xz(data):
    import zlib
    return 'SIMXZ %d %08x\n%s' % (len(data), zlib.crc32(data) & 0xffffffff,
                                  data)


@program('otool')
def p_otool(ctx):
    """otool -L FILE: a Mach-O here lists its libraries on lines LIB:PATH."""
    path = ctx.argv[-1]
    ctx.out.append('%s:\n' % path)
    for line in ctx.read(path).split('\n'):
        if line.startswith('LIB:'):
            ctx.out.append('\t%s (compatibility version 1.0.0, current '
                           'version 1.2.3)\n' % line[4:])


@program('install_name_tool')
def p_install_name_tool(ctx):
    args = ctx.argv[1:]
    path = args.pop()
    data = ctx.read(path)
    while args:
        what = args.pop(0)
        if what == '-id':
            new = args.pop(0)
            data = '\n'.join('ID:' + new if l.startswith('ID:') else l
                             for l in data.split('\n'))
        elif what == '-change':
            old, new = args.pop(0), args.pop(0)
            data = '\n'.join('LIB:' + new if l == 'LIB:' + old else l
                             for l in data.split('\n'))
        else:
            return 1
    node = ctx.kernel.disk.get(ctx.path(path))
    if not node.mode & 0200:
        ctx.err.append('install_name_tool: cannot write\n')
        return 1
    ctx.write(path, data)


def put_programs(disk, names=None, where='/usr/bin'):
    for name in names or PROGRAMS:
        if name in ('configure', 'exit'):
            continue
        disk.put('%s/%s' % (where, name), '#!sim %s\n' % name, 0755)
    disk.put('/bin/sh', '#!sim sh\n', 0755)
    disk.put('/bin/bash', '#!sim sh\n', 0755)
    disk.put('/usr/bin/exit', '#!sim exit\n', 0755)
