"""Buffered input and output of simulated programs (all are generators: they suspend at every system call)."""
from .kernel import SimError


class In:
    """line reader over one descriptor"""

    def __init__(self, p, fd, delim=b'\n'):
        self.p = p
        self.fd = fd
        self.buf = b''
        self.eof = False
        self.delim = delim

    def line(self):
        """next line with delimiter, b'' at the end"""
        while True:
            i = self.buf.find(self.delim)
            if i >= 0:
                r = self.buf[:i + 1]
                self.buf = self.buf[i + 1:]
                return r
            if self.eof:
                r = self.buf
                self.buf = b''
                return r
            b = yield ('read', self.fd, self.p.bufsize)
            if b == b'':
                self.eof = True
            else:
                self.buf += b

    def block(self):
        if self.buf:
            b = self.buf
            self.buf = b''
            return b
        b = yield ('read', self.fd, self.p.bufsize)
        return b

    def all(self):
        parts = []
        while True:
            b = yield from self.block()
            if b == b'':
                return b''.join(parts)
            parts.append(b)


class Out:
    def __init__(self, p, fd=1):
        self.p = p
        self.fd = fd
        self.buf = bytearray()
        p.outs.append(self)

    def write(self, data):
        self.buf += data
        if len(self.buf) >= self.p.bufsize:
            yield from self.flush()

    def flush(self):
        b = bytes(self.buf)
        del self.buf[:]
        while b:
            n = yield ('write', self.fd, b)
            b = b[n:]


def write_all(fd, b):
    while b:
        n = yield ('write', fd, b)
        b = b[n:]


def open_in(p, name):
    """fd for an input operand ('-' is stdin)"""
    if name == '-':
        p.used_stdin = True
        return 0
    fd = yield ('open', name, 'r')
    return fd


def read_file(p, name):
    fd = yield from open_in(p, name)
    data = yield from In(p, fd).all()
    if fd != 0:
        yield ('close', fd)
    return data


def err(p, msg):
    p.stderr += msg.encode('latin-1', 'replace') + b'\n'
