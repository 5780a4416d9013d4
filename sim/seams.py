"""Where the code under test meets the simulator.

``install()`` must run before tarfile, shutil, tempfile, requests or ipkg are
imported.  It replaces the functions of the standard library that reach the
outside world by dispatchers.  While a simulated process runs
(``KERNEL.cur``), every one of them is served by the kernel; otherwise they
do what they always did.

While a simulated process runs nothing it does can reach the real disk: paths
resolve on the simulated disk, except for *reading* below PASSTHROUGH (the
interpreter's own library and the code under test, imported lazily).
"""
import __builtin__
import errno
import hashlib
import imp
import io
import os
import platform
import posixpath
import socket
import subprocess
import sys
import time

import simos
from simos import (HarnessError, SimStat, ioerr, oserr, as_str,
                   O_RDONLY, O_WRONLY, O_RDWR, O_CREAT, O_TRUNC, O_EXCL,
                   O_APPEND)

KERNEL = None
PASSTHROUGH = ['/repo', '/verif', '/opt/jy', '/opt/vp', '/usr/share/java',
               '/usr/share/jython', '/usr/lib/jvm', '__pyclasspath__']
REAL = {}
ENVIRON = os.environ
IDENT = {'system': 'Linux', 'dist': ('debian', '7.2', ''),
         'machine': 'x86_64', 'mac_ver': '', 'host': 'builder'}


def cur():
    return KERNEL is not None and KERNEL.cur is not None


def passthrough(path):
    try:
        path = as_str(path)
    except TypeError:
        return False
    for prefix in PASSTHROUGH:
        if path == prefix or path.startswith(prefix + '/'):
            return True
    return False


class Hook(object):
    """A callable which does not bind when stored on a Java class."""

    def __init__(self, name, real, func):
        self.__name__ = name
        self.real = real
        self.func = func

    def __call__(self, *args, **kw):
        if KERNEL is None or KERNEL.cur is None:
            return self.real(*args, **kw)
        return self.func(*args, **kw)


def hook(module, name, func, optional=False):
    if not hasattr(module, name):
        if optional:
            return
    real = getattr(module, name, None)
    REAL[(module.__name__, name)] = real
    setattr(module, name, Hook(name, real, func))


def real(module, name):
    return REAL[(module, name)]


# -- files

class SimFile(object):
    """What open() returns in the simulator: a Python 2 file object."""

    softspace = 0
    encoding = None
    newlines = None
    errors = None

    def __init__(self, name, mode, node, flags, kernel):
        self.name = name
        self.mode = mode
        self.closed = False
        self._k = kernel
        self._proc = kernel.cur
        self._node = node
        self._read_ok = flags & 3 in (O_RDONLY, O_RDWR)
        self._write_ok = flags & 3 in (O_WRONLY, O_RDWR)
        self._append = bool(flags & O_APPEND)
        self._pos = 0           # position of the descriptor
        self._rbuf = ''
        self._wbuf = []
        self._wsize = 0
        self._fd = None
        self._proc.open_files.append(self)
        if self._append:
            self._pos = len(node.data)

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if self._k is not KERNEL or self._proc is not KERNEL.cur:
            # left over from another simulated process
            if KERNEL is None or KERNEL.cur is None or self._proc.dead:
                raise simos.SimKill()

    # reading

    def _fill(self, want):
        """Make ``want`` bytes available in the buffer, if there are any."""
        self.flush()
        while want < 0 or len(self._rbuf) < want:
            left = len(self._node.data) - self._pos
            size = self._k.bufsize
            if want < 0:
                size = max(size, left // 4 + 1)
            else:
                size = max(size, want - len(self._rbuf))
            data = self._k.read_node(self._node, self._pos, size, self.name)
            if not data:
                break
            self._pos += len(data)
            self._rbuf += data

    def read(self, size=-1):
        self._check()
        if not self._read_ok:
            raise IOError(errno.EBADF, 'File not open for reading')
        if size is None:
            size = -1
        self._fill(size)
        if size < 0:
            data, self._rbuf = self._rbuf, ''
        else:
            data, self._rbuf = self._rbuf[:size], self._rbuf[size:]
        return data

    def readline(self, size=-1):
        self._check()
        if not self._read_ok:
            raise IOError(errno.EBADF, 'File not open for reading')
        while True:
            at = self._rbuf.find('\n')
            if at >= 0:
                end = at + 1
                break
            have = len(self._rbuf)
            if 0 <= size <= have:
                end = size
                break
            self._fill(have + 1)
            if len(self._rbuf) == have:
                end = have
                break
        if 0 <= size < end:
            end = size
        line, self._rbuf = self._rbuf[:end], self._rbuf[end:]
        return line

    def readlines(self, hint=0):
        result = []
        while True:
            line = self.readline()
            if not line:
                return result
            result.append(line)

    xreadlines = readlines

    def readinto(self, buf):
        data = self.read(len(buf))
        for i, c in enumerate(data):
            buf[i] = c
        return len(data)

    def __iter__(self):
        return self

    def next(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    # writing

    def write(self, data):
        self._check()
        if not self._write_ok:
            raise IOError(errno.EBADF, 'File not open for writing')
        if isinstance(data, unicode):
            data = data.encode('ascii')
        elif not isinstance(data, str):
            data = str(buffer(data))
        if self._rbuf:
            self._pos -= len(self._rbuf)
            self._rbuf = ''
        self._wbuf.append(data)
        self._wsize += len(data)
        if self._wsize >= self._k.bufsize:
            self.flush()

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        if self.closed or not self._wsize:
            return
        self._check()
        data = ''.join(self._wbuf)
        # what could not be written is lost
        self._wbuf = []
        self._wsize = 0
        if self._append:
            self._pos = len(self._node.data)
        self._pos = self._k.write_node(self._node, self._pos, data, self.name)

    def seek(self, offset, whence=0):
        self._check()
        self.flush()
        if whence == 1:
            offset += self._pos - len(self._rbuf)
        elif whence == 2:
            offset += len(self._node.data)
        if offset < 0:
            raise IOError(errno.EINVAL, 'Invalid argument')
        self._rbuf = ''
        self._pos = offset

    def tell(self):
        self._check()
        return self._pos - len(self._rbuf) + self._wsize

    def truncate(self, size=None):
        self._check()
        self.flush()
        if size is None:
            size = self.tell()
        self._k.truncate_node(self._node, size, self.name)

    def fileno(self):
        self._check()
        if self._fd is None:
            self._fd = new_fd(self)
        return self._fd

    def isatty(self):
        return False

    def readable(self):
        return self._read_ok

    def writable(self):
        return self._write_ok

    def seekable(self):
        return True

    def close(self):
        if self.closed:
            return
        if self._k is not KERNEL or self._proc.dead or \
           self._k.cur is not self._proc:
            self.closed = True
            return
        try:
            self.flush()
        finally:
            self.closed = True
            if self in self._proc.open_files:
                self._proc.open_files.remove(self)
            if self._fd is not None:
                self._proc.fds.pop(self._fd, None)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *exc):
        self.close()

    def __repr__(self):
        return '<sim file %r, mode %r>' % (self.name, self.mode)


class TextFile(object):
    """io.open() in text mode: unicode in and out, over a SimFile."""

    def __init__(self, raw, encoding, errors):
        self.raw = raw
        self.encoding = encoding or 'utf-8'
        self.errs = errors or 'strict'
        self.name = raw.name

    def _dec(self, data):
        return data.decode(self.encoding, self.errs)

    def read(self, size=-1):
        return self._dec(self.raw.read(size))

    def readline(self, size=-1):
        return self._dec(self.raw.readline(size))

    def readlines(self, hint=0):
        return [self._dec(line) for line in self.raw.readlines()]

    def __iter__(self):
        return iter(self.readlines())

    def write(self, data):
        if not isinstance(data, unicode):
            raise TypeError('must be unicode, not %s' % type(data).__name__)
        self.raw.write(data.encode(self.encoding, self.errs))
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.raw.close()

    def __getattr__(self, name):
        return getattr(self.raw, name)


FD_BASE = 100


def new_fd(obj):
    proc = KERNEL.cur
    fd = proc.next_fd
    proc.next_fd += 1
    proc.fds[fd] = obj
    return fd


def get_fd(fd):
    obj = KERNEL.cur.fds.get(fd)
    if obj is None:
        raise oserr(errno.EBADF)
    return obj


def parse_mode(mode):
    base = mode.replace('b', '').replace('t', '').replace('U', '')
    plus = '+' in base
    base = base.replace('+', '') or 'r'
    if base == 'r':
        return O_RDWR if plus else O_RDONLY
    if base == 'w':
        return (O_RDWR if plus else O_WRONLY) | O_CREAT | O_TRUNC
    if base == 'a':
        return (O_RDWR if plus else O_WRONLY) | O_CREAT | O_APPEND
    if base == 'x':
        return (O_RDWR if plus else O_WRONLY) | O_CREAT | O_EXCL
    raise ValueError('invalid mode: %r' % mode)


def sim_open(name, mode='r', buffering=-1):
    flags = parse_mode(mode)
    if passthrough(name) and not flags & 3:
        return real('__builtin__', 'open')(name, mode)
    try:
        node = KERNEL.open_node(name, flags)
    except OSError, exc:
        raise IOError(exc.errno, exc.strerror, name)
    return SimFile(name, mode, node, flags, KERNEL)


def io_open(name, mode='r', buffering=-1, encoding=None, errors=None,
            newline=None, closefd=True):
    if isinstance(name, (int, long)):
        raw = fd_open(name, mode)
    elif passthrough(name) and not parse_mode(mode) & 3:
        return real('io', 'open')(name, mode, buffering, encoding, errors,
                                  newline)
    else:
        raw = sim_open(name, mode)
    if 'b' in mode:
        return raw
    return TextFile(raw, encoding, errors)


def fd_open(fd, mode='r', bufsize=-1):
    obj = get_fd(fd)
    if isinstance(obj, SimFile):
        return obj
    node, flags, path = obj.node, obj.flags, obj.path
    result = SimFile('<fdopen>', mode, node, flags, KERNEL)
    result._fd = fd
    result.name = path
    KERNEL.cur.fds[fd] = result
    return result


class Descriptor(object):
    def __init__(self, node, flags, path):
        self.node = node
        self.flags = flags
        self.path = path
        self.pos = 0


def fd_read(fd, size):
    obj = get_fd(fd)
    if isinstance(obj, SimFile):
        return obj.read(size)
    data = KERNEL.read_node(obj.node, obj.pos, size, obj.path)
    obj.pos += len(data)
    return data


def fd_write(fd, data):
    obj = get_fd(fd)
    if isinstance(obj, SimFile):
        obj.write(data)
        obj.flush()
        return len(data)
    if isinstance(obj, Out):
        obj.write(data)
        return len(data)
    if obj.flags & O_APPEND:
        obj.pos = len(obj.node.data)
    try:
        obj.pos = KERNEL.write_node(obj.node, obj.pos, str(data), obj.path)
    except IOError, exc:
        raise OSError(exc.errno, exc.strerror)
    return len(data)


def fd_close(fd):
    obj = get_fd(fd)
    if isinstance(obj, SimFile):
        obj.close()
    KERNEL.cur.fds.pop(fd, None)


def fd_fsync(fd):
    if isinstance(fd, (SimFile, TextFile)):
        fd = fd.fileno()
    if not isinstance(fd, (int, long)):
        fd = fd.fileno()
    obj = get_fd(fd)
    if isinstance(obj, SimFile):
        obj.flush()
        KERNEL.fsync_node(obj._node, obj.name)
    else:
        KERNEL.fsync_node(obj.node, obj.path)


def fd_fstat(fd):
    obj = get_fd(fd)
    KERNEL.step('stat', '<fd>')
    return SimStat(obj._node if isinstance(obj, SimFile) else obj.node)


def fd_truncate(fd, size):
    obj = get_fd(fd)
    if isinstance(obj, SimFile):
        obj.truncate(size)
    else:
        KERNEL.truncate_node(obj.node, size, obj.path)


def fd_lseek(fd, pos, how):
    obj = get_fd(fd)
    if isinstance(obj, SimFile):
        obj.seek(pos, how)
        return obj.tell()
    if how == 1:
        pos += obj.pos
    elif how == 2:
        pos += len(obj.node.data)
    obj.pos = pos
    return pos


def os_open(path, flags, mode=0777):
    if passthrough(path) and not flags & 3:
        return real('os', 'open')(path, flags)
    if not flags & 3:
        flags |= 0x10000000       # opening a directory for fsync is fine
    node = KERNEL.open_node(path, flags, mode)
    return new_fd(Descriptor(node, flags, path))


# -- paths

def _path1(name, method=None):
    method = method or name
    func = real('os', name)

    def call(path, *args, **kw):
        if passthrough(path):
            return func(path, *args, **kw)
        return getattr(KERNEL, method)(path, *args, **kw)
    return call


def hook_read(name, call):
    """Hook an os function which only reads."""
    func = getattr(os, name)

    def read(path, *args):
        if passthrough(path):
            return func(path, *args)
        return call(path, *args)
    hook(os, name, read)


def os_stat(path):
    return KERNEL.stat(path)


def os_lstat(path):
    return KERNEL.stat(path, False)


class Out(object):
    """sys.stdout or sys.stderr of the simulated process."""

    softspace = 0
    encoding = None

    def __init__(self, name, base):
        self.which = name
        self.base = base
        self.name = '<%s>' % name

    def write(self, data):
        if KERNEL is None or KERNEL.cur is None:
            self.base.write(data)
            return
        if isinstance(data, unicode):
            data = data.encode('utf-8')
        proc = KERNEL.cur
        (proc.out if self.which == 'stdout' else proc.err).append(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        if KERNEL is None or KERNEL.cur is None:
            self.base.flush()

    def isatty(self):
        return False

    def fileno(self):
        return 1 if self.which == 'stdout' else 2


class In(object):
    name = '<stdin>'

    def read(self, *args):
        return ''

    def readline(self, *args):
        return ''

    def fileno(self):
        return 0

    def isatty(self):
        return False


# -- loading code from the simulated disk

_codes = {}


def compiled(source, path):
    code = _codes.get((source, path))
    if code is None:
        if len(_codes) > 500:
            _codes.clear()
        code = _codes[source, path] = compile(source, path, 'exec')
    return code


def load_source(name, path, fileobj=None):
    if passthrough(path):
        return real('imp', 'load_source')(name, path)
    source = sim_open(path).read()
    code = compiled(source.replace('\r\n', '\n') + '\n', path)
    module = imp.new_module(name)
    module.__file__ = path
    sys.modules[name] = module
    KERNEL.loaded.append(name)
    exec code in module.__dict__
    return module


def sim_execfile(path, glob=None, loc=None):
    if passthrough(path):
        return real('__builtin__', 'execfile')(path, glob, loc)
    source = sim_open(path).read()
    code = compiled(source + '\n', path)
    if glob is None:
        frame = sys._getframe(1)
        glob, loc = frame.f_globals, frame.f_locals
    exec code in glob, (glob if loc is None else loc)


class TempNames(object):
    """tempfile's names: decided by the kernel."""

    def __init__(self, base):
        self.base = base

    def __iter__(self):
        return self

    def next(self):
        if not cur():
            return self.base.next()
        return KERNEL.temp_name()


def refuse(name):
    def call(*args, **kw):
        raise HarnessError('%s%r is not simulated' % (name, args))
    return call


class FileMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, (SimFile, FILE))


FILE = __builtin__.file


class FileShim(object):
    __metaclass__ = FileMeta

    def __new__(cls, *args, **kw):
        return __builtin__.open(*args, **kw)


def install():
    hook_read('stat', os_stat)
    hook_read('lstat', os_lstat)
    hook_read('listdir', lambda p: KERNEL.listdir(p))
    hook_read('readlink', lambda p: KERNEL.readlink(p))
    hook_read('access', lambda p, m: KERNEL.access(p, m))
    hook(os, 'open', os_open)
    hook(os, 'fdopen', fd_open)
    hook(os, 'read', fd_read)
    hook(os, 'write', fd_write)
    hook(os, 'close', fd_close)
    hook(os, 'fsync', fd_fsync)
    hook(os, 'fdatasync', fd_fsync)
    hook(os, 'fstat', fd_fstat)
    hook(os, 'ftruncate', fd_truncate)
    hook(os, 'lseek', fd_lseek)
    hook(os, 'isatty', lambda fd: False)
    hook(os, 'mkdir', lambda p, m=0777: KERNEL.mkdir(p, m))
    hook(os, 'rmdir', lambda p: KERNEL.rmdir(p))
    hook(os, 'unlink', lambda p: KERNEL.unlink(p))
    hook(os, 'remove', lambda p: KERNEL.unlink(p))
    hook(os, 'rename', lambda a, b: KERNEL.rename(a, b))
    hook(os, 'symlink', lambda a, b: KERNEL.symlink(a, b))
    hook(os, 'link', lambda a, b: KERNEL.link(a, b))
    hook(os, 'chmod', lambda p, m: KERNEL.chmod(p, m))
    hook(os, 'lchmod', lambda p, m: KERNEL.chmod(p, m, False))
    hook(os, 'chown', lambda p, u, g: KERNEL.chown(p, u, g))
    hook(os, 'lchown', lambda p, u, g: KERNEL.chown(p, u, g, False))
    hook(os, 'utime', lambda p, t: KERNEL.utime(p, t))
    hook(os, 'chdir', lambda p: KERNEL.chdir(p))
    hook(os, 'getcwd', lambda: KERNEL.cur.cwd)
    hook(os, 'getcwdu', lambda: KERNEL.cur.cwd.decode('utf-8'))
    hook(os, 'umask', lambda m: 022)
    hook(os, 'getpid', lambda: KERNEL.cur.pid)
    hook(os, 'getppid', lambda: 1)
    hook(os, 'getuid', lambda: KERNEL.uid)
    hook(os, 'geteuid', lambda: KERNEL.uid)
    hook(os, 'getgid', lambda: KERNEL.uid)
    hook(os, 'getegid', lambda: KERNEL.uid)
    hook(os, 'urandom', lambda n: ''.join(
        chr(KERNEL.rng.randrange(256)) for _ in range(n)))
    hook(os, 'uname', lambda: (IDENT['system'], IDENT['host'], '1', '1',
                               IDENT['machine']))
    for name in ('popen2', 'popen3', 'popen4', 'pipe', 'wait',
                 'waitpid', 'kill', 'setsid', 'setpgrp', '_exit'):
        hook(os, name, refuse('os.' + name), True)
    os.fchmod = lambda fd, mode: KERNEL.chmod_node(get_fd(fd), mode)

    def statvfs(path):
        raise oserr(errno.ENOENT, path)
    hook(__builtin__, 'open', sim_open)
    hook(io, 'open', io_open)
    __builtin__.file = FileShim
    hook(__builtin__, 'execfile', sim_execfile)
    hook(imp, 'load_source', load_source)
    hook(time, 'time', lambda: KERNEL.time())
    hook(time, 'clock', lambda: KERNEL.time())
    hook(time, 'sleep', lambda s: KERNEL.sleep(s))
    hook(socket, 'gethostname', lambda: IDENT['host'])
    hook(socket, 'getfqdn', lambda *a: IDENT['host'])
    hook(socket, 'create_connection', refuse('socket.create_connection'))
    hook(platform, 'system', lambda: IDENT['system'])
    hook(platform, 'dist', lambda *a, **k: IDENT['dist'])
    hook(platform, 'linux_distribution', lambda *a, **k: IDENT['dist'])
    hook(platform, 'machine', lambda: IDENT['machine'])
    hook(platform, 'node', lambda: IDENT['host'])
    hook(platform, 'mac_ver', lambda *a: (IDENT['mac_ver'], ('', '', ''),
                                          IDENT['machine']))
    install_bz2()
    import simproc
    simproc.install()
    sys.stdout = Out('stdout', sys.stdout)
    sys.stderr = Out('stderr', sys.stderr)
    sys.stdin = In()
    # modules which keep what they import
    import tempfile
    tempfile._name_sequence = TempNames(tempfile._RandomNameSequence())
    if not isinstance(tempfile._stat, Hook):
        tempfile._stat = os.lstat
    tempfile.template = 'tmp'
    import tarfile
    if not isinstance(tarfile.bltn_open, Hook):
        tarfile.bltn_open = __builtin__.open
    tarfile.pwd = tarfile.grp = Names()
    import simnet
    simnet.install()


class Names(object):
    """pwd and grp."""

    def getpwuid(self, uid):
        return ('root' if uid == 0 else 'user', 'x', uid, uid)

    getgrgid = getpwuid

    def getpwnam(self, name):
        if name == 'root':
            return ('root', 'x', 0, 0)
        raise KeyError(name)

    getgrnam = getpwnam


class Memo(object):
    """Remembers the results of a pure function of one string."""

    def __init__(self, func, most=40000000):
        self.func = func
        self.most = most
        self.size = 0
        self.known = {}

    def __call__(self, data):
        key = hashlib.sha1(data).digest()
        if key not in self.known:
            result = self.func(data)
            if self.size > self.most:
                self.known.clear()
                self.size = 0
            self.size += len(result or '') + 100
            self.known[key] = result
        return self.known[key]


def try_decompress(data):
    """None: not a complete stream."""
    import bz2
    try:
        return bz2.decompress(data)
    except (simos.SimKill, HarnessError):
        raise
    except BaseException:
        return None


def compress(data):
    comp = REAL['bz2', 'BZ2Compressor'](9)
    return comp.compress(data) + comp.flush()


decompressed = Memo(try_decompress)
compressed = Memo(compress)


class BZ2Compressor(object):
    """The real one, remembering its results: blocks are never filled."""

    def __init__(self, level=9):
        self.data = []

    def compress(self, data):
        self.data.append(data)
        return ''

    def flush(self):
        return compressed(''.join(self.data))


class BZ2Decompressor(object):
    """Jython's own sometimes loses data (CPython's does not)."""

    def __init__(self):
        self.raw = ''
        self.done = False
        self.unused_data = ''

    def decompress(self, data):
        import bz2
        if self.done:
            raise EOFError('end of stream was already found')
        self.raw += data
        if not 'BZh'.startswith(self.raw[:3]) and \
           not self.raw.startswith('BZh'):
            raise IOError('invalid data stream')
        result = decompressed(self.raw)
        if result is None:
            return ''
        self.done = True
        return result


def install_bz2():
    import bz2
    REAL['bz2', 'BZ2Compressor'] = bz2.BZ2Compressor
    bz2.BZ2Compressor = BZ2Compressor
    bz2.BZ2Decompressor = BZ2Decompressor
    base = bz2.BZ2File

    class BZ2File(object):
        def __new__(cls, *args, **kw):
            if not cur():
                return base(*args, **kw)
            return object.__new__(cls)

        def __init__(self, name, mode='r', buffering=0, compresslevel=9):
            self.name = name
            self.mode = mode
            self.__file = sim_open(name, 'wb' if 'w' in mode else 'rb')
            self.__comp = None
            self.__data = None
            self.pos = 0
            self.closed = False
            if 'w' in mode:
                self.__comp = bz2.BZ2Compressor(compresslevel)

        def write(self, data):
            if isinstance(data, unicode):
                data = data.encode('ascii')
            if data:
                self.__file.write(self.__comp.compress(data))
                self.pos += len(data)

        def __load(self):
            if self.__data is None:
                self.__data = bz2.decompress(self.__file.read())
            return self.__data

        def read(self, size=-1):
            data = self.__load()
            if size is None or size < 0:
                size = len(data)
            result = data[self.pos:self.pos + size]
            self.pos += len(result)
            return result

        def seek(self, pos, whence=0):
            data = self.__load()
            if whence == 1:
                pos += self.pos
            elif whence == 2:
                pos += len(data)
            self.pos = pos

        def tell(self):
            return self.pos

        def flush(self):
            pass

        def close(self):
            if self.closed:
                return
            self.closed = True
            try:
                if self.__comp is not None:
                    self.__file.write(self.__comp.flush())
            finally:
                self.__file.close()

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            self.close()
    bz2.BZ2File = BZ2File
