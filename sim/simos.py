"""The simulated machine: one in-memory disk, processes, a clock and faults.

Runs under Jython 2.7.  Everything the code under test does to the outside
world goes through ``Kernel`` (see seams.py), one *step* per operation.  A
step is the unit of everything: where a process may be killed, where a disk
operation may fail, where the scheduler may switch to another process.
"""
import errno
import hashlib
import os as _os
import posixpath
import rand
import stat as _stat
import sys
import tempfile
import threading
import zlib

from java.lang import Thread, Throwable
from java.lang.management import ManagementFactory

O_RDONLY, O_WRONLY, O_RDWR = _os.O_RDONLY, _os.O_WRONLY, _os.O_RDWR
O_CREAT, O_EXCL, O_TRUNC, O_APPEND = (_os.O_CREAT, _os.O_EXCL, _os.O_TRUNC,
                                      _os.O_APPEND)

STRERROR = {
    errno.ENOENT: 'No such file or directory',
    errno.EEXIST: 'File exists',
    errno.EIO: 'Input/output error',
    errno.ENOSPC: 'No space left on device',
    errno.EACCES: 'Permission denied',
    errno.EPERM: 'Operation not permitted',
    errno.ENOTDIR: 'Not a directory',
    errno.EISDIR: 'Is a directory',
    errno.ENOTEMPTY: 'Directory not empty',
    errno.EROFS: 'Read-only file system',
    errno.EMFILE: 'Too many open files',
    errno.EBADF: 'Bad file descriptor',
    errno.EINVAL: 'Invalid argument',
    errno.ELOOP: 'Too many levels of symbolic links',
    errno.EBUSY: 'Device or resource busy',
    errno.ENOMEM: 'Cannot allocate memory',
    errno.EXDEV: 'Invalid cross-device link',
    errno.EAGAIN: 'Resource temporarily unavailable',
}


class SimKill(BaseException):
    """The simulated process no longer exists."""


class HarnessError(BaseException):
    """The simulator cannot model what the code under test asked for."""


def oserr(num, path=None):
    return OSError(num, STRERROR.get(num, 'Error %d' % num), path)


def ioerr(num, path=None):
    return IOError(num, STRERROR.get(num, 'Error %d' % num), path)


def as_str(path):
    if isinstance(path, unicode):
        return path.encode('utf-8')
    if isinstance(path, str):
        return path
    raise TypeError('coercing to Unicode: need string or buffer, %s found'
                    % type(path).__name__)


class Inode(object):
    __slots__ = ('ino', 'kind', 'mode', 'uid', 'gid', 'data', 'entries',
                 'target', 'mtime', 'nlink', 'synced')

    def __init__(self, ino, kind, mode):
        self.ino = ino
        self.kind = kind
        self.mode = mode
        self.uid = 0
        self.gid = 0
        self.data = ''
        self.entries = {} if kind == 'd' else None
        self.target = None
        self.mtime = 0
        self.nlink = 1
        self.synced = ''


class SimStat(object):
    def __init__(self, node):
        kinds = {'d': _stat.S_IFDIR, 'f': _stat.S_IFREG, 'l': _stat.S_IFLNK}
        self.st_mode = kinds[node.kind] | (node.mode & 07777)
        self.st_ino = node.ino
        self.st_dev = 1
        self.st_nlink = node.nlink
        self.st_uid = node.uid
        self.st_gid = node.gid
        if node.kind == 'f':
            self.st_size = len(node.data)
        elif node.kind == 'l':
            self.st_size = len(node.target)
        else:
            self.st_size = 4096
        self.st_atime = self.st_mtime = self.st_ctime = node.mtime
        self.st_rdev = 0
        self.st_blksize = 4096
        self.st_blocks = (self.st_size + 511) // 512

    def __getitem__(self, index):
        return (self.st_mode, self.st_ino, self.st_dev, self.st_nlink,
                self.st_uid, self.st_gid, self.st_size, self.st_atime,
                self.st_mtime, self.st_ctime)[index]

    def __len__(self):
        return 10

    def __iter__(self):
        return iter(self[0:10])


class Disk(object):
    """State of the simulated disk. No faults, no steps: plain semantics."""

    def __init__(self):
        self.next_ino = 2
        self.root = Inode(1, 'd', 0755)

    def new(self, kind, mode, mtime=0):
        node = Inode(self.next_ino, kind, mode)
        node.mtime = mtime
        self.next_ino += 1
        return node

    def clone(self):
        copy = Disk()
        copy.next_ino = self.next_ino
        memo = {}

        def dup(node):
            if node.ino in memo:
                return memo[node.ino]
            new = Inode(node.ino, node.kind, node.mode)
            memo[node.ino] = new
            new.uid, new.gid = node.uid, node.gid
            new.data, new.target = node.data, node.target
            new.mtime, new.nlink = node.mtime, node.nlink
            new.synced = node.synced
            if node.kind == 'd':
                entries = new.entries
                for name, child in node.entries.iteritems():
                    entries[name] = dup(child)
            return new
        copy.root = dup(self.root)
        return copy

    def nodes(self):
        seen = {}

        def visit(node):
            if node.ino in seen:
                return
            seen[node.ino] = node
            if node.kind == 'd':
                for child in node.entries.itervalues():
                    visit(child)
        visit(self.root)
        return seen

    # -- path resolution

    def lookup(self, path, follow=True, want_parent=False, depth=0):
        """Returns the inode, or (parent, name, inode or None)."""
        if depth > 40:
            raise oserr(errno.ELOOP, path)
        parts = [p for p in path.split('/') if p and p != '.']
        trailing = path.endswith('/')
        node = self.root
        stack = []
        for index, part in enumerate(parts):
            last = index == len(parts) - 1
            if node.kind != 'd':
                raise oserr(errno.ENOTDIR, path)
            if part == '..':
                if stack:
                    node = stack.pop()
                if last and want_parent:
                    return node, None, node
                continue
            child = node.entries.get(part)
            if last and want_parent and (child is None or
                                         child.kind != 'l' or
                                         not (follow or trailing)):
                return node, part, child
            if child is None:
                raise oserr(errno.ENOENT, path)
            if child.kind == 'l' and (not last or follow or trailing):
                base = self._path_of(stack + [node])
                target = posixpath.join(base, child.target)
                rest = '/'.join(parts[index + 1:])
                if rest:
                    target = target + '/' + rest
                return self.lookup(target, follow, want_parent, depth + 1)
            stack.append(node)
            node = child
        if want_parent:
            return node, None, node
        if trailing and node.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        return node

    def _path_of(self, chain):
        names = []
        for parent, child in zip(chain, chain[1:]):
            for name, node in parent.entries.iteritems():
                if node is child:
                    names.append(name)
                    break
        return '/' + '/'.join(names)

    # -- helpers for the harness

    def makedirs(self, path, mode=0755):
        node = self.root
        for part in path.split('/'):
            if not part:
                continue
            child = node.entries.get(part)
            if child is None:
                child = node.entries[part] = self.new('d', mode)
            elif child.kind == 'l':
                child = self.lookup(path[:path.index(part) + len(part)])
            node = child
        return node

    def put(self, path, data, mode=0644):
        parent = self.makedirs(posixpath.dirname(path))
        name = posixpath.basename(path)
        node = parent.entries.get(name)
        if node is None or node.kind != 'f':
            node = parent.entries[name] = self.new('f', mode)
        node.mode = mode
        node.data = node.synced = data
        return node

    def put_link(self, path, target):
        parent = self.makedirs(posixpath.dirname(path))
        node = self.new('l', 0777)
        node.target = target
        parent.entries[posixpath.basename(path)] = node

    def get(self, path, follow=True):
        try:
            return self.lookup(path, follow)
        except OSError:
            return None

    def read(self, path):
        node = self.get(path)
        if node is None or node.kind != 'f':
            return None
        return node.data

    def remove(self, path):
        parent, name, node = self.lookup(path, False, True)
        del parent.entries[name]
        node.nlink -= 1

    def remove_tree(self, path):
        parent, name, node = self.lookup(path, False, True)
        if node is not None:
            del parent.entries[name]

    def tree(self, base='/', skip=()):
        """{path: ('d', mode) | ('f', mode, data) | ('l', target)}"""
        result = {}
        top = self.get(base)
        if top is None:
            return result

        def visit(path, node):
            if path in skip:
                return
            if node.kind == 'd':
                result[path] = ('d', node.mode)
                for name, child in node.entries.iteritems():
                    visit(path.rstrip('/') + '/' + name, child)
            elif node.kind == 'f':
                result[path] = ('f', node.mode, node.data)
            else:
                result[path] = ('l', node.target)
        visit(base, top)
        return result

    def digest(self):
        items = sorted(self.tree().items())
        return '%08x' % (zlib.crc32(repr(items)) & 0xffffffff)


class Proc(object):
    """A simulated process (one command, or one program using the library)."""

    def __init__(self, pid, name, faults, limit):
        self.pid = pid
        self.name = name
        self.faults = faults
        self.limit = limit
        self.step = 0
        self.dead = False
        self.hung = False
        self.out = []
        self.err = []
        self.open_files = []
        self.children = []
        self.fds = {}
        self.next_fd = 100
        self.cwd = '/'
        self.full = False       # disk full for this process from some step on
        self.value = None
        self.exc = None
        self.status = None      # 'ok' 'error' 'killed' 'hung'
        self.opened = []        # files opened to be read
        self.kinds = []         # kind of every step, for the generator
        self.places = []        # and its path
        self.fired = []
        self.fired_at = []      # paths
        self.asked = []         # urls
        self.thread = None
        self.argv = None
        self.modules = []
        self.nchildren = 0
        self.fates = {}
        self.child_names = []
        # scheduling
        self.gate = None
        self.finished = False


class Result(object):
    """What a finished process left for the oracles."""

    def __init__(self, proc):
        self.name = proc.name
        self.status = proc.status
        self.value = proc.value
        self.exc = proc.exc
        self.out = ''.join(proc.out)
        self.err = ''.join(proc.err)
        self.steps = proc.step
        self.kinds = proc.kinds
        self.places = proc.places
        self.opened = proc.opened
        self.fired = proc.fired
        self.fired_at = proc.fired_at
        self.pid = proc.pid
        self.children = proc.child_names

    @property
    def ok(self):
        return self.status == 'ok'

    def brief(self):
        if self.exc is not None:
            text = '%s: %s' % (type(self.exc).__name__, safe_str(self.exc))
        else:
            text = ''
        return '%s%s' % (self.status, ' (%s)' % text[:300] if text else '')


def safe_str(obj):
    try:
        return str(obj)
    except Exception:
        try:
            return repr(obj)
        except Exception:
            return '<unprintable %s>' % type(obj).__name__

MUTATING = frozenset(('creat', 'trunc', 'write', 'mkdir', 'rmdir', 'unlink',
                      'rename', 'symlink', 'link', 'chmod', 'chown', 'utime',
                      'fsync'))
#: operations on which an injected error is an ordinary possibility.  stat()
#: and permission/time changes are left out: the standard library itself
#: ignores errors there (os.path.exists(), tarfile's chmod/chown/utime).
FAILABLE = frozenset(('creat', 'trunc', 'open', 'read', 'write', 'mkdir',
                      'rmdir', 'unlink', 'rename', 'symlink', 'link',
                      'listdir', 'fsync', 'readlink', 'exec'))
ALLOCATING = frozenset(('creat', 'write', 'mkdir', 'symlink', 'link'))


class Kernel(object):
    """Owns everything nondeterministic of one simulated execution."""

    def __init__(self, disk, seed, config=None):
        config = config or {}
        self.disk = disk
        self.rng = rand.Random(seed)
        self.seed = seed
        self.bufsize = config.get('bufsize', 4096)
        self.shuffle = config.get('shuffle', True)
        self.clock = config.get('clock', 1400000000.0)
        self.clock_jump = config.get('clock_jump', 0)   # 1 in N reads jump
        self.collide = config.get('collide', 0)  # temp name collisions
        self.cur = None
        self.next_pid = 1000
        self.gstep = 0
        self.switches = 0
        self.sched = None
        self.stats = {}
        self.hash = hashlib.md5()
        self.trace = []
        self.keep_trace = config.get('keep_trace', False)
        self.harness_error = None
        self.programs = {}
        self.net = None
        self.power = None
        self.temp_count = 0
        self.observers = []
        self.start_clock = self.clock
        self.exec_log = []
        self.pending_kill = None
        self.uid = config.get('uid', 0)
        self.loaded = []
        self.jumped = 0.0

    # -- statistics and trace

    def count(self, name, by=1):
        self.stats[name] = self.stats.get(name, 0) + by

    def log(self, *items):
        text = repr(items)
        self.hash.update(text)
        if self.keep_trace:
            self.trace.append(text)

    # -- steps

    def step(self, kind, path, size=0):
        """Every operation passes here before it takes effect.

        Returns None, or the number of bytes of a write that take effect
        before the process dies or the error is raised (see k_write).
        """
        proc = self.cur
        if proc is None:
            raise HarnessError('operation %s %s outside of a process'
                               % (kind, path))
        if proc.dead:
            raise SimKill()
        if self.sched is not None:
            self.sched.yield_point()
            if proc.dead:
                raise SimKill()
        proc.step += 1
        self.gstep += 1
        self.clock += 0.0001
        proc.kinds.append(kind)
        proc.places.append(path)
        self.log(proc.pid, proc.step, kind, path, size)
        if proc.step > proc.limit:
            proc.hung = True
            proc.dead = True
            raise SimKill()
        if self.power is not None:
            self.power.at_step(self, proc, kind)
        fault = proc.faults.get(proc.step)
        if fault is not None:
            return self.fire(proc, fault, kind, path, size)
        if proc.full and kind in ALLOCATING:
            self.count('fault.enospc')
            if kind == 'write' and size:
                return ('error', errno.ENOSPC, 0)
            raise oserr(errno.ENOSPC, path)
        return None

    def fire(self, proc, fault, kind, path, size):
        what = fault['kind']
        proc.fired_at.append(str(path))
        if what == 'kill':
            self.count('fault.kill')
            proc.fired.append('kill@%s' % kind)
            self.log('kill')
            if kind == 'write' and size > 0 and fault.get('part'):
                self.count('fault.torn_write')
                return ('kill', 0, int(size * fault['part']))
            proc.dead = True
            raise SimKill()
        if what == 'full':
            proc.full = True
            proc.fired.append('full@%s' % kind)
            self.count('fault.disk_full')
            if kind in ALLOCATING:
                if kind == 'write' and size:
                    return ('error', errno.ENOSPC,
                            int(size * fault.get('part', 0)))
                raise oserr(errno.ENOSPC, path)
            return None
        if what == 'error':
            if kind not in FAILABLE:
                return None
            num = getattr(errno, fault['errno'])
            if kind not in ALLOCATING and num == errno.ENOSPC:
                num = errno.EIO
            self.count('fault.error.%s' % errno.errorcode[num])
            self.count('fault.on.%s' % kind)
            proc.fired.append('%s@%s' % (errno.errorcode[num], kind))
            if kind == 'write' and size:
                return ('error', num, int(size * fault.get('part', 0)))
            raise oserr(num, path)
        raise HarnessError('unknown fault %r' % what)

    def hang(self):
        """The running process waits for ever."""
        self.count('hang')
        WATCHDOG.forget(self.cur)
        self.cur.hung = self.cur.dead = True
        raise SimKill()

    def child_fate(self, name, argv):
        """What happens to the next child process.

        Keyed by the number of children run so far by this process.
        """
        proc = self.cur
        proc.nchildren += 1
        fate = proc.fates.get(proc.nchildren)
        proc.child_names.append(name)
        if fate is not None:
            self.count('fault.child.%s.%s' % (
                'signal' if fate['code'] < 0 else 'exit', fate['when']))
            proc.fired.append('child %s: %d' % (name, fate['code']))
            self.log('fate', fate['code'], fate['when'])
        return fate

    def mutated(self, kind, path):
        for observer in self.observers:
            observer(kind, path)

    # -- time

    def time(self):
        self.clock += 0.00001
        if self.clock_jump and self.rng.randrange(self.clock_jump) == 0:
            jump = self.rng.choice((-86400.0, -5.0, 3600.0, 864000.0))
            self.clock += jump
            self.jumped += jump
            self.count('fault.clock_jump')
        return self.clock

    def sleep(self, seconds):
        self.step('sleep', '')
        self.clock += max(0, seconds)

    def temp_name(self):
        self.temp_count += 1
        if self.collide and self.rng.randrange(self.collide) == 0:
            # a name which is probably taken
            self.count('fault.temp_collision')
            return 'tmp%03d' % self.rng.randrange(1, self.temp_count + 1)
        return 'tmp%03d' % self.temp_count

    # -- paths

    def full_path(self, path):
        path = as_str(path)
        if not path.startswith('/'):
            path = posixpath.join(self.cur.cwd if self.cur else '/', path)
        return path

    # -- operations (raise OSError)

    def stat(self, path, follow=True):
        self.step('stat', path)
        full = self.full_path(path)
        if not path:
            raise oserr(errno.ENOENT, path)
        return SimStat(self._lookup(full, path, follow))

    def _lookup(self, full, path, follow=True):
        try:
            return self.disk.lookup(full, follow)
        except OSError, exc:
            raise oserr(exc.errno, path)

    def _parent(self, path, follow=False):
        if not path:
            raise oserr(errno.ENOENT, path)
        try:
            return self.disk.lookup(self.full_path(path), follow, True)
        except OSError, exc:
            raise oserr(exc.errno, path)

    def may(self, node, bit, path):
        """The simulated user owns every file: only owner bits matter."""
        if self.uid and not node.mode & bit:
            raise oserr(errno.EACCES, path)

    def listdir(self, path):
        self.step('listdir', path)
        node = self._lookup(self.full_path(path), path)
        if node.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        self.may(node, 0400, path)
        names = sorted(node.entries)
        if self.shuffle:
            # directory order depends on the directory, not on the call
            order = rand.Random(self.seed, node.ino)
            order.shuffle(names)
        if isinstance(path, unicode):
            names = [name.decode('utf-8') for name in names]
        return names

    def mkdir(self, path, mode=0777):
        self.step('mkdir', path)
        parent, name, node = self._parent(path.rstrip('/') or '/')
        if name is None or node is not None:
            raise oserr(errno.EEXIST, path)
        self.may(parent, 0200, path)
        parent.entries[name] = self.disk.new('d', mode & ~022, self.clock)
        self.mutated('mkdir', path)

    def rmdir(self, path):
        self.step('rmdir', path)
        parent, name, node = self._parent(path.rstrip('/') or '/')
        if name is None:
            raise oserr(errno.EBUSY, path)
        if node is None:
            raise oserr(errno.ENOENT, path)
        if node.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        if node.entries:
            raise oserr(errno.ENOTEMPTY, path)
        self.may(parent, 0200, path)
        del parent.entries[name]
        self.mutated('rmdir', path)

    def unlink(self, path):
        self.step('unlink', path)
        parent, name, node = self._parent(path)
        if node is None:
            raise oserr(errno.ENOENT, path)
        if node.kind == 'd':
            raise oserr(errno.EISDIR, path)
        self.may(parent, 0200, path)
        del parent.entries[name]
        node.nlink -= 1
        self.mutated('unlink', path)

    def rename(self, src, dst):
        self.step('rename', '%s -> %s' % (as_str(src), as_str(dst)))
        sparent, sname, snode = self._parent(src.rstrip('/'))
        if snode is None or sname is None:
            raise oserr(errno.ENOENT, src)
        dparent, dname, dnode = self._parent(dst.rstrip('/'))
        if dname is None:
            raise oserr(errno.EBUSY, dst)
        if dnode is snode:
            return
        self.may(sparent, 0200, src)
        self.may(dparent, 0200, dst)
        if dnode is not None:
            if dnode.kind == 'd':
                if snode.kind != 'd':
                    raise oserr(errno.EISDIR, dst)
                if dnode.entries:
                    raise oserr(errno.ENOTEMPTY, dst)
            elif snode.kind == 'd':
                raise oserr(errno.ENOTDIR, dst)
            dnode.nlink -= 1
        del sparent.entries[sname]
        dparent.entries[dname] = snode
        self.mutated('rename', dst)

    def symlink(self, target, path):
        self.step('symlink', path)
        parent, name, node = self._parent(path)
        if node is not None:
            raise oserr(errno.EEXIST, path)
        self.may(parent, 0200, path)
        link = self.disk.new('l', 0777, self.clock)
        link.target = as_str(target)
        parent.entries[name] = link
        self.mutated('symlink', path)

    def link(self, src, dst):
        self.step('link', dst)
        node = self._lookup(self.full_path(src), src, False)
        if node.kind == 'd':
            raise oserr(errno.EPERM, src)
        parent, name, old = self._parent(dst)
        if old is not None:
            raise oserr(errno.EEXIST, dst)
        self.may(parent, 0200, dst)
        parent.entries[name] = node
        node.nlink += 1
        self.mutated('link', dst)

    def readlink(self, path):
        self.step('readlink', path)
        node = self._lookup(self.full_path(path), path, False)
        if node.kind != 'l':
            raise oserr(errno.EINVAL, path)
        return node.target

    def chmod(self, path, mode, follow=True):
        self.step('chmod', path, mode)
        node = self._lookup(self.full_path(path), path, follow)
        node.mode = mode & 07777
        self.mutated('chmod', path)

    def chmod_node(self, obj, mode):
        node = getattr(obj, '_node', None) or obj.node
        self.step('chmod', '<fd>', mode)
        node.mode = mode & 07777

    def chown(self, path, uid, gid, follow=True):
        self.step('chown', path)
        node = self._lookup(self.full_path(path), path, follow)
        if uid >= 0:
            node.uid = uid
        if gid >= 0:
            node.gid = gid
        self.mutated('chown', path)

    def utime(self, path, times):
        self.step('utime', path)
        node = self._lookup(self.full_path(path), path)
        node.mtime = times[1] if times else self.clock
        self.mutated('utime', path)

    def access(self, path, mode):
        self.step('stat', path)
        try:
            node = self._lookup(self.full_path(path), path)
        except OSError:
            return False
        if mode & _os.X_OK and node.kind == 'f':
            return bool(node.mode & 0111)
        return True

    def chdir(self, path):
        self.step('stat', path)
        node = self._lookup(self.full_path(path), path)
        if node.kind != 'd':
            raise oserr(errno.ENOTDIR, path)
        self.cur.cwd = posixpath.normpath(self.full_path(path))

    # -- files

    def open_node(self, path, flags, mode=0666):
        """Returns the inode opened."""
        access = flags & (O_RDONLY | O_WRONLY | O_RDWR)
        writing = access != O_RDONLY
        creating = bool(flags & O_CREAT)
        full = self.full_path(path)
        if not path:
            self.step('open', path)
            raise oserr(errno.ENOENT, path)
        if full == '/dev/null':
            self.step('open', path)
            return Inode(0, 'f', 0666)
        try:
            before = self.disk.lookup(full)
        except OSError:
            before = None
        if before is None and creating:
            kind = 'creat'
        elif before is not None and writing and flags & O_TRUNC:
            kind = 'trunc'
        else:
            kind = 'open'
        self.step(kind, path)
        # another process may have run meanwhile: look again
        if creating:
            # O_CREAT|O_EXCL does not follow a final symlink
            parent, name, node = self._parent(path, not flags & O_EXCL)
            if node is None:
                self.may(parent, 0200, path)
                node = self.disk.new('f', mode & ~022, self.clock)
                parent.entries[name] = node
                self.mutated('creat', path)
                return node
            if flags & O_EXCL:
                raise oserr(errno.EEXIST, path)
            if node.kind == 'l':
                node = self._lookup(full, path)
        else:
            node = self._lookup(full, path)
        if node.kind == 'd':
            if writing or not flags & 0x10000000:
                raise oserr(errno.EISDIR, path)
        if access != O_WRONLY:
            self.may(node, 0400, path)
        if writing:
            self.may(node, 0200, path)
        if writing and flags & O_TRUNC:
            node.data = ''
            self.mutated('trunc', path)
        if not writing:
            self.cur.opened.append(str(full))
        return node

    def read_node(self, node, pos, size, path):
        self.step('read', path)
        if node.ino == 0:
            return ''
        if size is None or size < 0:
            return node.data[pos:]
        return node.data[pos:pos + size]

    def write_node(self, node, pos, data, path):
        """Returns the new position."""
        if node.ino == 0:
            self.step('write', path)
            return pos
        verdict = self.step('write', path, len(data))
        if verdict is not None:
            what, num, part = verdict
            if part:
                self._store(node, pos, data[:part])
                self.mutated('write', path)
            if what == 'kill':
                self.cur.dead = True
                raise SimKill()
            raise ioerr(num, path)
        self._store(node, pos, data)
        self.mutated('write', path)
        return pos + len(data)

    def _store(self, node, pos, data):
        old = node.data
        if pos == len(old):
            node.data = old + data
        else:
            if pos > len(old):
                old = old + '\0' * (pos - len(old))
            node.data = old[:pos] + data + old[pos + len(data):]
        node.mtime = self.clock

    def fsync_node(self, node, path):
        self.step('fsync', path)
        if node.kind == 'f':
            node.synced = node.data
        if self.power is not None:
            self.power.at_fsync(self)

    def truncate_node(self, node, size, path):
        self.step('trunc', path)
        node.data = node.data[:size] + '\0' * (size - len(node.data))
        self.mutated('trunc', path)

    # -- processes

    def spawn(self, name, faults=None, limit=None):
        proc = Proc(self.next_pid, name,
                    dict((f['at'], f) for f in faults or ()),
                    limit or 60000)
        self.next_pid += 1
        return proc

    def run(self, name, func, faults=None, limit=None, cwd='/', fates=None):
        """Run ``func`` as a process, alone, to its end. Returns a Result."""
        proc = self.spawn(name, faults, limit)
        proc.cwd = cwd
        proc.fates = fates or {}
        self.cur = proc
        self.log('start', name)
        try:
            # its own thread: only a thread can be stopped
            thread = threading.Thread(target=self._body, args=(proc, func))
            thread.setDaemon(True)
            thread.start()
            thread.join()
            WATCHDOG.gone(proc)
        finally:
            self.cur = None
        if proc.status is None:
            raise HarnessError('the thread of %s died' % name)
        return Result(proc)

    def stopped(self, proc):
        """The thread of a process which computed for ever is dead."""
        proc.status = 'hung'
        proc.exc = None
        self.log('end', proc.name, proc.status)
        if self.sched is not None:
            self.sched.end(proc)

    def _body(self, proc, func):
        try:
            WATCHDOG.watch(self, proc)
            try:
                try:
                    proc.value = func()
                finally:
                    WATCHDOG.forget(proc)
                proc.status = 'ok'
            except SystemExit, exc:
                code = exc.code
                proc.value = code
                if code is None or code == 0:
                    proc.status = 'ok'
                else:
                    proc.status = 'error'
                    proc.exc = exc
            except Exception, exc:
                proc.status = 'error'
                proc.exc = exc
            except Throwable, exc:
                # thrown by the interpreter's Java code
                if proc.hung:
                    raise SimKill()
                proc.status = 'error'
                proc.exc = exc
            if not proc.dead:
                # interpreter exit flushes what is still buffered, and the
                # commands left running finish
                for f in list(proc.open_files):
                    try:
                        f.close()
                    except (IOError, OSError):
                        pass
                for child in list(proc.children):
                    child.finish()
        except SimKill:
            pass
        except HarnessError, exc:
            self.harness_error = self.harness_error or exc
            proc.status = 'error'
            proc.exc = exc
        if proc.dead:
            proc.status = 'hung' if proc.hung else 'killed'
            proc.exc = None
        self.log('end', proc.name, proc.status)

    def run_together(self, procs, schedule):
        """Run several processes interleaved at their steps.

        ``procs``: list of (name, func, faults, fates, environ).
        ``schedule``: dict {global step: index of the process to continue
        with}.
        """
        sched = Scheduler(self, schedule)
        started = []
        for name, func, faults, fates, environ in procs:
            proc = self.spawn(name, faults)
            proc.cwd = '/home/user'
            proc.fates = fates or {}
            proc.interpreter = environ, ['ipkg'], '/tmp'
            sched.add(proc, func)
            started.append(proc)
        self.sched = sched
        try:
            sched.run()
        finally:
            self.sched = None
            self.cur = None
        return [Result(p) for p in started]


class Watchdog(object):
    """Ends processes which compute for ever, without any step.

    What counts is the processor time of their thread, and the limit is
    hundreds of times what a process takes: the outcome does not depend on
    the speed of the machine.
    """
    LIMIT = 20

    def __init__(self):
        self.lock = threading.Lock()
        self.watched = {}       # process: (kernel, thread, time before)
        self.thread = None
        self.bean = ManagementFactory.getThreadMXBean()

    def watch(self, kernel, proc):
        with self.lock:
            thread = Thread.currentThread()
            self.watched[proc] = (kernel, thread, self.used(thread))
            if self.thread is None:
                self.thread = threading.Thread(target=self._main)
                self.thread.setDaemon(True)
                self.thread.start()

    def forget(self, proc):
        if proc.hung:
            return
        with self.lock:
            self.watched.pop(proc, None)

    def gone(self, proc):
        """Wait until a stopped process is dealt with."""
        if proc.hung:
            with self.lock:
                pass

    def used(self, thread):
        return self.bean.getThreadCpuTime(thread.getId()) / 1e9

    def _main(self):
        while True:
            Thread.sleep(500)
            with self.lock:
                for proc, (kernel, thread, before) in self.watched.items():
                    if self.used(thread) - before > self.LIMIT:
                        del self.watched[proc]
                        proc.hung = proc.dead = True
                        thread.stop()
                        thread.join()
                        if proc.status is None:
                            kernel.stopped(proc)


WATCHDOG = Watchdog()


class Scheduler(object):
    """Decides which process takes the next step.

    Every process runs in a real thread, parked on its own lock: exactly one
    thread runs at any time and the schedule says which one.
    """

    def __init__(self, kernel, schedule):
        self.kernel = kernel
        self.schedule = schedule
        self.procs = []
        self.funcs = []
        self.done = threading.Semaphore(0)
        self.error = None
        self.at = 0
        self.order = []

    def add(self, proc, func):
        proc.gate = threading.Semaphore(0)
        self.procs.append(proc)
        self.funcs.append(func)

    def run(self):
        for proc, func in zip(self.procs, self.funcs):
            thread = threading.Thread(target=self._main, args=(proc, func))
            thread.setDaemon(True)
            proc.thread = thread
            thread.start()
        first = self.procs[self.schedule.get(0, 0) % len(self.procs)]
        self.go(first)
        self.done.acquire()
        for proc in self.procs:
            proc.thread.join()
        if self.error is not None:
            raise self.error

    def _main(self, proc, func):
        proc.gate.acquire()
        self.kernel.log('start', proc.name)
        try:
            self.kernel._body(proc, func)
        except BaseException, exc:
            self.error = HarnessError('in %s: %r' % (proc.name, exc))
        self.end(proc)

    def end(self, proc):
        proc.finished = True
        alive = [p for p in self.procs if not p.finished]
        if not alive:
            self.done.release()
            return
        self.go(alive[0])

    def go(self, proc):
        """Continue with a process: the interpreter is its own."""
        environ, argv, tempdir = proc.interpreter
        _os.environ.clear()
        _os.environ.update(environ)
        sys.argv = argv
        tempfile.tempdir = tempdir
        self.kernel.cur = proc
        proc.gate.release()

    def yield_point(self):
        """Called by the running process before each of its steps."""
        self.at += 1
        choice = self.schedule.get(self.at)
        if choice is None:
            return
        me = self.kernel.cur
        target = self.procs[choice % len(self.procs)]
        if target is me or target.finished:
            return
        self.kernel.switches += 1
        self.kernel.count('sched.switch')
        self.kernel.log('switch', me.pid, target.pid)
        me.interpreter = dict(_os.environ), sys.argv, tempfile.tempdir
        self.go(target)
        me.gate.acquire()


class PowerLoss(object):
    """The machine loses power at step ``at`` of a process.

    Directory operations are durable in the order they were made, up to a
    point that is not before the last fsync; file contents are durable as of
    their last fsync, and anything since may be there, torn or missing.
    """

    def __init__(self, at, keep, seed):
        self.at = at            # step at which the power fails
        self.keep = keep        # step up to which directories are durable
        self.seed = seed
        self.image = None
        self.done = False

    def at_step(self, kernel, proc, kind):
        if proc.step == self.keep or self.image is None:
            self.image = kernel.disk.clone()
        if proc.step >= self.at and not self.done:
            self.done = True
            self.apply(kernel)
            kernel.count('fault.power_loss')
            proc.fired.append('power@%s' % kind)
            proc.dead = True
            kernel.log('power loss')
            raise SimKill()

    def at_fsync(self, kernel):
        self.image = kernel.disk.clone()

    def apply(self, kernel):
        rng = rand.Random(self.seed)
        now = kernel.disk.nodes()
        image = self.image
        for ino, node in sorted(image.nodes().items()):
            if node.kind != 'f':
                continue
            latest = now.get(ino, node)
            # the newest content known durable
            durable = latest.synced
            if latest.data == durable:
                node.data = node.synced = durable
                continue
            pick = rng.randrange(4)
            if pick == 0:
                content = durable
            elif pick == 1:
                content = ''
            elif pick == 2:
                content = latest.data[:rng.randrange(len(latest.data) + 1)]
            else:
                content = latest.data
            if content != latest.data:
                kernel.count('fault.lost_unsynced_data')
            node.data = node.synced = content
        kernel.disk = image
