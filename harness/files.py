"""A model of files: a file is (encoding, text); every step can be made to fail.

Opening for writing empties a file at once. Names: open, codecs, io, os, pathlib, Path of a module are replaced."""
import codecs
import io
import os
import pathlib

# what an encoding cannot hold
LIMIT = {'iso8859-1': r'[^\x00-\xff]', 'ascii': r'[^\x00-\x7f]', 'cp1252': r'[^\x00-\x7f\xa0-\xff\u20ac]'}


class Fault(Exception):
    pass


def norm(e):
    return codecs.lookup(e).name


def cannot_hold(S, text, enc):
    n = norm(enc)
    return n in LIMIT and S.has(text, LIMIT[n])


def alike(S, text, a, b):
    """is the text the same bytes in both encodings?"""
    return norm(a) == norm(b) or not ('utf-16' in (norm(a), norm(b)) or S.has(text, r'[^\x00-\x7f]'))


class Bytes:
    """the bytes of a text in an encoding"""

    def __init__(self, S, text, enc):
        self.S, self.s, self.encoding = S, text, enc

    def decode(self, encoding='utf-8', errors='strict'):
        if norm(encoding) != norm(self.encoding) and not alike(self.S, self.s, encoding, self.encoding):
            raise UnicodeDecodeError(encoding, b'', 0, 0, 'another encoding')
        return self.s

    def __bool__(self):
        return self.s != ''

    def __add__(self, other):
        if isinstance(other, bytes):
            other = Bytes(self.S, other.decode(self.encoding), self.encoding)
        if norm(other.encoding) != norm(self.encoding):
            self.S.unsupported('bytes in two encodings')
        return Bytes(self.S, self.s + other.s, self.encoding)

    def __radd__(self, other):
        return Bytes(self.S, other.decode(self.encoding) + self.s, self.encoding)

    def __getattr__(self, name):
        if name[:2] == '__':
            raise AttributeError(name)
        self.S.unsupported('bytes: ' + name)


class NoModel:
    def __init__(self, S, name):
        self.__dict__.update(S=S, name=name)

    def __getattr__(self, name):
        self.S.unsupported(self.name + '.' + name)


class System:
    """files and the fault of this run; `raised`: it happened"""

    def __init__(self, S, files, fault='', encoding='utf-8', mtime=0, locale='utf-8'):
        self.S, self.files, self.fault, self.encoding, self.mtime = S, files, fault, encoding, mtime
        self.locale = locale
        self.raised = False
        self.written = []
        self.limits = []

    def fail(self, step, error, *args):
        if self.fault == step:
            self.raised = True
            raise error(*args)

    def encode(self, text, enc='utf-8', errors='strict'):
        self.fail('encode', LookupError, 'unknown encoding')
        if cannot_hold(self.S, text, enc):
            if errors != 'strict':
                # what cannot be encoded is lost
                return Bytes(self.S, '?', norm(enc))
            raise UnicodeEncodeError(enc, 'x', 0, 1, 'not in this encoding')
        return Bytes(self.S, text, norm(enc))

    def decode(self, data, enc='utf-8', errors='strict'):
        if self.fault == 'decode' and errors != 'strict':
            self.raised = True
            return data.decode(enc)
        self.fail('decode', UnicodeDecodeError, enc, b'x', 0, 1, 'invalid start byte')
        return data.decode(enc)

    def store(self, path, data):
        if isinstance(data, bytes):
            data = Bytes(self.S, data.decode(self.encoding), self.encoding)
        text = data.s
        old = self.files.get(path)
        if old is not None and old[0] is not None:
            text = old[1] + text
        self.files[path] = (norm(data.encoding), text)

    def open(self, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        return File(self, str(path), mode, encoding, True, errors, newline)

    def codecs_open(self, path, mode='r', encoding=None, errors='strict', buffering=-1):
        return File(self, str(path), mode, encoding, False, errors)

    def names(self):
        """the stand-ins for a module's names"""
        path = self.path_class()
        return {
            'open': self.open,
            'codecs': Module(codecs, open=self.codecs_open, encode=self.encode, decode=self.decode),
            'io': Module(io, open=self.open),
            'os': Module(os, replace=self.rename, rename=self.rename, remove=self.remove, unlink=self.remove,
                         path=Module(os.path, exists=self.exists, isfile=self.exists, getmtime=self.getmtime)),
            'pathlib': Module(pathlib, Path=path),
            'Path': path,
            'tempfile': NoModel(self.S, 'tempfile'),
            'shutil': NoModel(self.S, 'shutil'),
        }

    def path_class(self):
        class Path(APath):
            sys = self
        return Path

    def exists(self, path):
        return str(path) in self.files

    def getmtime(self, path):
        return self.mtime

    def rename(self, a, b):
        self.files[str(b)] = self.files.pop(str(a))
        self.written.append(str(b))

    def remove(self, a):
        del self.files[str(a)]


class Module:
    """a module with some names replaced"""

    def __init__(self, module, **names):
        self.__dict__.update(names)
        self._module = module

    def __getattr__(self, n):
        return getattr(self.__dict__['_module'], n)


class File:
    def __init__(self, system, path, mode, encoding, text, errors=None, newline=None):
        self.errors = errors or 'strict'
        # in text mode every line ends with \n
        self.universal = text and 'b' not in mode and newline is None
        self.sys, self.name, self.mode, self.encoding = system, path, mode, encoding
        if encoding is not None:
            codecs.lookup(encoding)
        elif text and 'b' not in mode:
            self.encoding = system.locale
        self.pos = 0
        self.rest = None
        self.closed = False
        if 'r' in mode:
            system.fail('open', FileNotFoundError, path)
            if path not in system.files:
                raise FileNotFoundError(path)
        else:
            system.fail('write', PermissionError, path)
            if 'x' in mode and path in system.files:
                raise FileExistsError(path)
            system.written.append(path)
            if 'a' not in mode or path not in system.files:
                # the encoding is that of what is written first
                system.files[path] = (None, '')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def read(self, size=-1):
        if self.rest is None:
            self.rest = self.content()
        if size is None or size < 0:
            text, self.rest = self.rest, ''
        else:
            self.sys.limits.append(size)
            text, self.rest = self.rest[:size], self.rest[size:]
        if self.encoding is None:
            return Bytes(self.sys.S, text, self.sys.files[self.name][0]) if text != '' or not self.pos else b''
        self.pos = 1
        return text

    def content(self):
        self.sys.fail('read', OSError, 'read error')
        enc, text = self.sys.files[self.name]
        if self.encoding is None:
            return text
        if self.errors != 'strict' and self.sys.fault == 'decode':
            # what cannot be decoded is lost
            self.sys.raised = True
            return self.lines(text)
        self.sys.fail('decode', UnicodeDecodeError, self.encoding, b'x', 0, 1, 'invalid start byte')
        if enc is not None and norm(enc) != norm(self.encoding) and not alike(self.sys.S, text, enc, self.encoding):
            raise UnicodeDecodeError(self.encoding, b'x', 0, 1, 'invalid start byte')
        return self.lines(text)

    def readline(self, size=-1):
        if size is not None and size >= 0:
            return self.read(size)
        if self.rest is None:
            self.rest = self.content()
        if self.rest == '':
            return ''
        line = self.rest.splitlines(True)[0]
        self.rest = self.rest[len(line):]
        return line

    def __getattr__(self, name):
        if name[:2] == '__':
            raise AttributeError(name)
        self.sys.S.unsupported('files: ' + name)

    def lines(self, text):
        if self.universal and '\r' in text:
            return text.replace('\r\n', '\n').replace('\r', '\n')
        return text

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def write(self, data):
        if self.encoding is not None:
            data = self.sys.encode(data, self.encoding, self.errors)
        self.sys.store(self.name, data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)


class Stat:
    def __init__(self, mtime):
        self.st_mtime = mtime


class APath:
    """pathlib.Path on the model; `sys`: the system, an attribute of the class"""

    def __init__(self, *parts):
        self.p = os.path.join(*[str(p) for p in parts])

    def __str__(self):
        return self.p

    def __fspath__(self):
        return self.p

    def __eq__(self, other):
        return isinstance(other, APath) and other.p == self.p

    def __hash__(self):
        return hash(self.p)

    def __truediv__(self, other):
        return type(self)(self.p, other)

    @property
    def name(self):
        return pathlib.PurePosixPath(self.p).name

    @property
    def stem(self):
        return pathlib.PurePosixPath(self.p).stem

    @property
    def suffix(self):
        return pathlib.PurePosixPath(self.p).suffix

    @property
    def parent(self):
        return type(self)(str(pathlib.PurePosixPath(self.p).parent))

    def with_suffix(self, s):
        return type(self)(str(pathlib.PurePosixPath(self.p).with_suffix(s)))

    def with_name(self, s):
        return type(self)(str(pathlib.PurePosixPath(self.p).with_name(s)))

    def joinpath(self, *o):
        return type(self)(self.p, *o)

    def exists(self):
        return self.is_file() or self.is_dir()

    def is_file(self):
        return self.p in self.sys.files

    def is_dir(self):
        return any([f.startswith(self.p + '/') for f in self.sys.files])

    def open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        return File(self.sys, self.p, mode, encoding, True, errors, newline)

    def read_text(self, encoding=None, errors=None):
        return File(self.sys, self.p, 'r', encoding, True, errors).read()

    def write_text(self, data, encoding=None, errors=None, newline=None):
        File(self.sys, self.p, 'w', encoding, True, errors).write(data)

    def __getattr__(self, name):
        if name[:2] == '__' or name in ('p', 'sys'):
            raise AttributeError(name)
        self.sys.S.unsupported('paths: ' + name)

    def read_bytes(self):
        return File(self.sys, self.p, 'rb', None, True).read()

    def write_bytes(self, data):
        File(self.sys, self.p, 'wb', None, True).write(data)

    def replace(self, other):
        self.sys.rename(self.p, other)

    rename = replace

    def unlink(self, missing_ok=False):
        self.sys.files.pop(self.p, None)

    def stat(self):
        return Stat(self.sys.mtime)
