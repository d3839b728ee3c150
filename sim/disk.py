"""A simulated disk below a scratch directory.

Files exist for real in the scratch directory, so reading works unchanged.
Every operation that changes something there goes through this module, which
keeps a model of what would survive a crash:

 * the content of a file is durable as of its last fsync; later writes and
   truncations may survive in any subset, the last one torn
 * creations, renames and removals in a directory become durable in order, at
   the latest with an fsync of the directory
"""
import builtins
import errno
import io
import os
import random
import _io

real = {n: getattr(os, n) for n in
        ('open', 'close', 'write', 'fsync', 'fdatasync', 'ftruncate', 'truncate', 'replace', 'rename', 'unlink',
         'remove', 'link', 'symlink', 'mkdir', 'rmdir', 'read', 'pwrite', 'sendfile', 'copy_file_range', 'dup', 'sync')
        if hasattr(os, n)}
real_open = builtins.open
D = None            # the disk that is in use


class Crash(BaseException):
    """The machine stops here."""


class Inode:
    def __init__(self):
        self.live = bytearray()
        self.durable = b''
        self.pending = []


class Disk:
    def __init__(self, root, ctx=None):
        self.root = os.path.realpath(root)
        self.ctx = ctx
        self.files = {}             # live: path -> Inode
        self.durable = {}           # durable directory entries
        self.pending = []           # directory operations, in order
        self.fds = {}               # fd -> [inode, position, flags, path]
        self.dirfds = {}
        self.n = 0                  # mutating operations
        self.nr = 0                 # reads
        self.fault = None           # dict(at=, kind=)
        self.rfault = None
        self.rhook = None           # called before every open for reading and every read
        self.dead = False
        self.log = []
        self.fired = []
        self.raws = []
        self.enospc_left = None

    # ------------------------------------------------------------- helpers --
    def mine(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        d, b = os.path.split(p)
        p = os.path.join(os.path.realpath(d or '.'), b) if b else os.path.realpath(p)
        return p if p == self.root or p.startswith(self.root + os.sep) else None

    def step(self, name, *a):
        """One mutating operation; may fail or crash here."""
        if self.dead:
            raise Crash()
        self.n += 1
        self.log.append((name,) + a)
        f = self.fault
        if f is not None and self.n == f['at']:
            k = f['kind']
            if k == 'crash':
                self.fire('crash')
                self.dead = True
                raise Crash()
            if k in ('eio', 'enospc', 'edquot', 'eacces'):
                self.fire(k)
                raise OSError(getattr(errno, k.upper()), os.strerror(getattr(errno, k.upper())) + ' (injected)')
            if k in ('torn', 'short', 'full'):
                return k
            if k == 'interrupt':
                self.fire('interrupt')
                raise KeyboardInterrupt('injected')
        return None

    def fire(self, kind):
        self.fired.append(kind)
        if self.ctx is not None:
            self.ctx.faults['disk:' + kind] += 1

    def names(self):
        return {os.path.relpath(p, self.root): bytes(i.live) for p, i in self.files.items()}

    # ------------------------------------------------------------ file data --
    def do_write(self, fd, data, pos=None):
        inode, p, flags, path = self.fds[fd]
        if flags & os.O_APPEND:
            p = len(inode.live)
        if pos is not None:
            p = pos
        data = bytes(data)
        k = self.step('write', os.path.basename(path), len(data))
        if self.enospc_left is not None:
            if self.enospc_left < len(data):
                data, self.enospc_left = data[:self.enospc_left], 0
                if not data:
                    self.fire('disk_full')
                    raise OSError(errno.ENOSPC, 'No space left on device (injected)')
            else:
                self.enospc_left -= len(data)
        n = len(data)
        if k in ('torn', 'short', 'full'):
            n = max(1 if k == 'short' else 0, n // 2) if n else 0
        part = data[:n]
        if len(inode.live) < p:
            inode.live.extend(b'\0' * (p - len(inode.live)))
        inode.live[p:p + n] = part
        inode.pending.append(('write', p, part))
        os.pwrite(fd, part, p) if real.get('pwrite') is None else real['pwrite'](fd, part, p)
        self.fds[fd][1] = p + n
        if k == 'torn':
            self.fire('torn_write')
            self.dead = True
            raise Crash()
        if k == 'full':
            self.fire('enospc')
            self.enospc_left = 0
            if n == 0:
                raise OSError(errno.ENOSPC, 'No space left on device (injected)')
        if k == 'short':
            self.fire('short_write')
        return n

    def do_trunc(self, fd, size):
        inode = self.fds[fd][0]
        self.step('truncate', os.path.basename(self.fds[fd][3]), size)
        if size < len(inode.live):
            del inode.live[size:]
        else:
            inode.live.extend(b'\0' * (size - len(inode.live)))
        inode.pending.append(('trunc', size))
        real['ftruncate'](fd, size)

    def do_fsync(self, fd):
        if fd in self.dirfds:
            self.step('fsync_dir')
            self.flush_dir()
            return
        inode = self.fds[fd][0]
        self.step('fsync', os.path.basename(self.fds[fd][3]))
        inode.durable = bytes(inode.live)
        inode.pending = []

    def flush_dir(self):
        for op in self.pending:
            self.apply(self.durable, op)
        self.pending = []

    @staticmethod
    def apply(entries, op):
        if op[0] == 'link':
            entries[op[1]] = op[2]
        elif op[0] == 'unlink':
            entries.pop(op[1], None)
        else:
            i = entries.pop(op[1], op[3])
            entries[op[2]] = i

    # ----------------------------------------------------------- operations --
    def open_fd(self, path, flags, mode=0o666):
        p = self.mine(path)
        if os.path.isdir(p):
            if self.dead:
                raise Crash()
            fd = real['open'](path, flags, mode)
            self.dirfds[fd] = p
            return fd
        w = flags & (os.O_WRONLY | os.O_RDWR)
        creates = p not in self.files
        if w:
            if creates and not flags & os.O_CREAT:
                raise FileNotFoundError(errno.ENOENT, 'No such file', path)
            self.step('open', os.path.basename(p), 'new' if creates else ('trunc' if flags & os.O_TRUNC else 'keep'))
        elif self.dead:
            raise Crash()
        elif self.rhook is not None:
            self.rhook('open', p, 0)
        fd = real['open'](path, flags, mode)
        if w and creates:
            self.files[p] = Inode()
            self.pending.append(('link', p, self.files[p]))
        elif w and flags & os.O_TRUNC:
            del self.files[p].live[:]
            self.files[p].pending.append(('trunc', 0))
        if p not in self.files:
            self.files[p] = i = Inode()
            with real_open(fd, 'rb', closefd=False) as f:
                i.live = bytearray(f.read())
            os.lseek(fd, 0, 0)
            i.durable = bytes(i.live)
            self.durable[p] = i
        self.fds[fd] = [self.files[p], 0, flags, p]
        return fd

    def close_fd(self, fd):
        self.dirfds.pop(fd, None)
        self.fds.pop(fd, None)
        real['close'](fd)

    def rename(self, src, dst):
        a, b = self.mine(src), self.mine(dst)
        self.step('rename', os.path.basename(str(src)), os.path.basename(str(dst)))
        if a is None or b is None:
            raise OSError(errno.EXDEV, 'Invalid cross-device link (simulated)')
        if a not in self.files:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', str(src))
        real['replace'](src, dst)
        i = self.files.pop(a)
        self.files[b] = i
        self.pending.append(('rename', a, b, i))

    def link(self, src, dst):
        a, b = self.mine(src), self.mine(dst)
        self.step('link', os.path.basename(str(src)), os.path.basename(str(dst)))
        real['link'](src, dst)
        self.files[b] = self.files[a]
        self.pending.append(('link', b, self.files[a]))

    def unlink(self, path):
        p = self.mine(path)
        self.step('unlink', os.path.basename(p))
        real['unlink'](path)
        self.files.pop(p, None)
        self.pending.append(('unlink', p))

    # ---------------------------------------------------------------- crash --
    def survivors(self, rng, worst=None):
        """name -> content after a crash now."""
        ent = dict(self.durable)
        m = len(self.pending)
        k = {None: rng.choice([0, m, rng.randint(0, m)]), 'none': 0, 'all': m}[worst]
        for op in self.pending[:k]:
            self.apply(ent, op)
        out = {}
        for p, i in ent.items():
            c = bytearray(i.durable)
            how = rng.choice(['none', 'all', 'prefix', 'subset']) if worst is None else worst
            ops = list(i.pending)
            if how == 'none':
                ops = []
            elif how == 'prefix' and ops:
                ops = ops[:rng.randint(0, len(ops))]
                if ops and ops[-1][0] == 'write' and len(ops[-1][2]) > 1:
                    o = ops[-1]
                    ops[-1] = ('write', o[1], o[2][:rng.randrange(1, len(o[2]))])
            elif how == 'subset':
                ops = [o for o in ops if rng.random() < 0.6]
            for o in ops:
                if o[0] == 'trunc':
                    if o[1] < len(c):
                        del c[o[1]:]
                    else:
                        c.extend(b'\0' * (o[1] - len(c)))
                else:
                    if len(c) < o[1]:
                        c.extend(b'\0' * (o[1] - len(c)))
                    c[o[1]:o[1] + len(o[2])] = o[2]
            out[os.path.relpath(p, self.root)] = bytes(c)
        return out


class SimRaw(io.RawIOBase):
    """Raw file on the simulated disk."""

    def __init__(self, disk, fd, path, mode, closefd=True):
        self.disk, self.fd, self._mode, self.closefd = disk, fd, mode, closefd
        self.name = path
        self.mode = mode
        disk.raws.append(self)

    def readable(self):
        return not self.disk.fds[self.fd][2] & os.O_WRONLY

    def writable(self):
        return bool(self.disk.fds[self.fd][2] & (os.O_WRONLY | os.O_RDWR))

    def seekable(self):
        return True

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self.fd

    def write(self, b):
        if self.closed:
            raise ValueError('write to closed file')
        return self.disk.do_write(self.fd, memoryview(b).cast('B'))

    def readinto(self, b):
        d = self.disk
        if d.dead:
            raise Crash()
        d.nr += 1
        e = d.fds[self.fd]
        n = len(b)
        if d.rhook is not None:
            n = d.rhook('read', e[3], n)
        f = d.rfault
        if f is not None and d.nr == f['at']:
            d.fire('read_' + f['kind'])
            if f['kind'] == 'eio':
                raise OSError(errno.EIO, 'Input/output error (injected)')
            if f['kind'] == 'interrupt':
                raise KeyboardInterrupt('injected')
            if f['kind'] == 'memory':
                raise MemoryError('injected')
            if f['kind'] == 'short' and n > 1:
                n = max(1, n // 3)
        data = e[0].live[e[1]:e[1] + n]
        b[:len(data)] = data
        e[1] += len(data)
        return len(data)

    def seek(self, off, whence=0):
        e = self.disk.fds[self.fd]
        e[1] = off if whence == 0 else (e[1] + off if whence == 1 else len(e[0].live) + off)
        return e[1]

    def tell(self):
        return self.disk.fds[self.fd][1]

    def truncate(self, size=None):
        self.disk.do_trunc(self.fd, self.tell() if size is None else size)
        return size

    def close(self):
        if not self.closed:
            super().close()
            if self.closefd and self.fd in self.disk.fds:
                self.disk.close_fd(self.fd)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = D
    if d is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if file not in d.fds:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd, path = file, d.fds[file][3]
    else:
        path = d.mine(file)
        if path is None:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        base = mode.replace('b', '').replace('t', '')
        plus = '+' in base
        c = base.replace('+', '')
        fl = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
              'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL}[c]
        if plus:
            fl = (fl & ~os.O_WRONLY) | os.O_RDWR
        if opener is not None:
            fd = opener(file, fl | os.O_CLOEXEC)
            if fd not in d.fds:
                return real_open(fd, mode, buffering, encoding, errors, newline, closefd)
        else:
            fd = d.open_fd(file, fl | os.O_CLOEXEC)
    raw = SimRaw(d, fd, file, mode, closefd)
    if 'b' in mode and buffering == 0:
        return raw
    if '+' in mode:
        buf = io.BufferedRandom(raw)
    elif 'r' in mode:
        buf = io.BufferedReader(raw)
    else:
        buf = io.BufferedWriter(raw)
    if 'b' in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
    t.mode = mode
    return t


def _path1(name, meth):
    r = real[name]

    def f(path, *a, **k):
        d = D
        if d is None or isinstance(path, int) or d.mine(path) is None or k.get('dir_fd') is not None:
            return r(path, *a, **k)
        return meth(d, path, *a, **k)
    f.__name__ = name
    return f


def _path2(name, meth):
    r = real[name]

    def f(src, dst, **k):
        d = D
        if d is None or (d.mine(src) is None and d.mine(dst) is None):
            return r(src, dst, **k)
        return meth(d, src, dst)
    f.__name__ = name
    return f


def _fd(name, meth):
    r = real[name]

    def f(fd, *a, **k):
        d = D
        n = fd if isinstance(fd, int) else fd.fileno()
        if d is None or (n not in d.fds and n not in d.dirfds):
            return r(fd, *a, **k)
        return meth(d, n, *a, **k)
    f.__name__ = name
    return f


def _no_fast_copy(out_fd, *a, **k):
    d = D
    if d is not None:
        raise OSError(errno.ENOTSOCK, 'not supported on the simulated disk')
    return real['sendfile'](out_fd, *a, **k)


_on = False


def install():
    global _on
    if _on:
        return
    _on = True
    builtins.open = io.open = _io.open = sim_open
    os.open = _path1('open', lambda d, p, flags, mode=0o777, **k: d.open_fd(p, flags, mode))
    os.close = _fd('close', Disk.close_fd)
    os.write = _fd('write', Disk.do_write)
    os.pwrite = _fd('pwrite', lambda d, fd, data, pos: d.do_write(fd, data, pos))
    os.read = _fd('read', _read)
    os.fsync = _fd('fsync', Disk.do_fsync)
    os.fdatasync = _fd('fdatasync', Disk.do_fsync)
    os.ftruncate = _fd('ftruncate', Disk.do_trunc)
    os.replace = _path2('replace', Disk.rename)
    os.rename = _path2('rename', Disk.rename)
    os.link = _path2('link', Disk.link)
    os.unlink = _path1('unlink', lambda d, p: d.unlink(p))
    os.remove = _path1('remove', lambda d, p: d.unlink(p))
    os.sendfile = _no_fast_copy
    os.sync = _sync


def _sync():
    if D is None:
        return real['sync']()
    D.step('sync')
    for i in D.files.values():
        i.durable, i.pending = bytes(i.live), []
    D.flush_dir()


def _read(d, fd, n):
    e = d.fds[fd]
    d.nr += 1
    if d.rhook is not None:
        n = d.rhook('read', e[3], n)
    data = bytes(e[0].live[e[1]:e[1] + n])
    e[1] += len(data)
    return data


class using:
    """Route file operations below the disk's root through it."""

    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        global D
        install()
        self.old, D = D, self.disk
        return self.disk

    def __exit__(self, *a):
        global D
        D = self.old
        return False
