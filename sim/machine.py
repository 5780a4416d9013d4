"""A simulated machine on which commands run one after another, or together.

Every command is a process of its own: what survives from one to the next is
the disk (and the clock).  A Machine can be cloned, which is how one history
is continued in many ways.
"""
import hashlib
import logging
import os
import sys
import tempfile

import seams
import simos
import simnet
import simproc  # noqa

BASE_ENVIRON = {'PATH': '/usr/bin:/bin', 'HOME': '/home/user',
                'LANG': 'C', 'USER': 'user'}


def no_lock(self):
    self.lock = None


# Only one simulated process runs at any time, and it may be parked while it
# formats a message: handlers must not lock.
logging.Handler.createLock = no_lock
logging.raiseExceptions = 0


class Null(logging.Handler):
    def emit(self, record):
        pass


def reset_interpreter(environ, argv=None):
    """A new process starts with fresh global state."""
    os.environ.clear()
    os.environ.update(environ)
    tempfile.tempdir = '/tmp'
    root = logging.getLogger()
    for logger in (root, logging.getLogger('ipkg')):
        del logger.handlers[:]
    root.addHandler(Null())
    root.setLevel(logging.CRITICAL)
    logging.getLogger('ipkg').setLevel(logging.NOTSET)
    sys.argv = list(argv or ['ipkg'])


class Machine(object):
    def __init__(self, disk, seed, config=None, pages=None, environ=None):
        self.disk = disk
        self.seed = seed
        self.config = dict(config or {})
        self.pages = pages or {}
        self.environ = dict(BASE_ENVIRON)
        self.environ.update(environ or {})
        self.clock = self.config.get('clock', 1400000000.0)
        self.next_pid = 1000
        self.count = 0
        self.temp_count = 0
        self.stats = {}
        self.digest = ''
        self.steps = 0
        self.simtime = 0.0
        self.traces = None
        self.keep = {}

    def clone(self):
        copy = Machine.__new__(Machine)
        copy.__dict__.update(self.__dict__)
        copy.disk = self.disk.clone()
        copy.stats = dict(self.stats)
        copy.keep = dict(self.keep)
        if self.traces is not None:
            copy.traces = list(self.traces)
        return copy

    def settle(self):
        """Time passes: everything written so far is durable."""
        for node in self.disk.nodes().itervalues():
            if node.kind == 'f':
                node.synced = node.data

    def _kernel(self, op):
        self.count += 1
        config = dict(self.config)
        config['clock'] = self.clock
        config['keep_trace'] = self.traces is not None
        kernel = simos.Kernel(self.disk, '%s/%s' % (self.seed, self.count),
                              config)
        kernel.next_pid = self.next_pid
        kernel.temp_count = self.temp_count
        net = op.get('net') or {}
        script = dict((int(k), v) for k, v in
                      (net.get('script') or {}).items())
        kernel.net = simnet.Network(kernel, dict(self.pages), script,
                                    net.get('framing', 'length'),
                                    net.get('chunk', 700))
        kernel.net.down = bool(net.get('down'))
        kernel.net.gzip = bool(net.get('gzip'))
        power = op.get('power')
        if power:
            kernel.power = simos.PowerLoss(power['at'], power['keep'],
                                           power['seed'])
        return kernel

    def _after(self, kernel):
        self.disk = kernel.disk
        self.clock = kernel.clock
        self.next_pid = kernel.next_pid
        self.temp_count = kernel.temp_count
        for name, value in kernel.stats.items():
            self.stats[name] = self.stats.get(name, 0) + value
        self.steps += kernel.gstep
        self.simtime += kernel.clock - kernel.start_clock - kernel.jumped
        self.digest = hashlib.md5(self.digest + kernel.hash.hexdigest()
                                  ).hexdigest()
        if self.traces is not None:
            self.traces.extend(kernel.trace)
        if kernel.harness_error is not None:
            raise kernel.harness_error

    def run(self, name, func, op=None, cwd='/home/user'):
        """Run one process to its end.

        ``op`` may hold: faults, fates, net, power, environ, argv.
        """
        op = op or {}
        if kernel_busy():
            raise simos.HarnessError('a process is already running')
        environ = dict(self.environ)
        environ.update(op.get('environ') or {})
        reset_interpreter(environ, op.get('argv'))
        kernel = self._kernel(op)
        seams.KERNEL = kernel
        fates = dict((int(k), v) for k, v in (op.get('fates') or {}).items())
        try:
            result = kernel.run(name, func, op.get('faults'),
                                op.get('limit'), cwd, fates)
        finally:
            seams.KERNEL = None
            forget_modules(kernel)
        result.exec_log = kernel.exec_log
        result.requests = list(kernel.net.requests)
        result.whole = list(kernel.net.whole)
        result.switches = 0
        self._after(kernel)
        return result

    def run_together(self, parts, op):
        """Run processes interleaved. ``parts``: [(name, func, part op)]."""
        environ = dict(self.environ)
        environ.update(op.get('environ') or {})
        reset_interpreter(environ, op.get('argv'))
        kernel = self._kernel(op)
        seams.KERNEL = kernel
        schedule = dict((int(k), v) for k, v in
                        (op.get('schedule') or {}).items())
        try:
            results = kernel.run_together(
                [(name, func, part.get('faults'), dict(
                    (int(k), v) for k, v in
                    (part.get('fates') or {}).items()),
                  dict(environ, **(part.get('environ') or {})))
                 for name, func, part in parts], schedule)
        finally:
            seams.KERNEL = None
            forget_modules(kernel)
        for result in results:
            result.exec_log = [e for e in kernel.exec_log
                               if e['pid'] == result.pid]
            result.requests = list(kernel.net.requests)
            result.whole = list(kernel.net.whole)
            result.switches = kernel.switches
        self._after(kernel)
        return results

    def peek(self, func, environ=None, cwd='/home/user'):
        """Run a process on a copy of this machine: an observer."""
        other = self.clone()
        other.traces = None
        return other.run('observer', func, {'environ': environ}, cwd)


def kernel_busy():
    return seams.KERNEL is not None


def forget_modules(kernel):
    for name in kernel.loaded:
        sys.modules.pop(name, None)
