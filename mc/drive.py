"""Runs the public commands (extract, build, ...) of the code under test on products given as {member: bytes}."""
import contextlib
import io
import os

from . import env, fs, v8conf


class Driver:
    def __init__(self):
        import v8unpack
        from v8unpack import v8unpack as api
        self.api = api
        self.pkg = v8unpack

    @property
    def base(self):
        return env.scratch_dir()

    def at(self, *p):
        return os.path.join(self.base, *p)

    def start(self):
        """an empty working directory"""
        fs.wipe(self.at('w'))
        os.makedirs(self.at('w'))

    def quiet(self, func, *a, **k):
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            return func(*a, **k)

    def write(self, name, data):
        path = self.at('w', name)
        with open(path, 'wb') as f:
            f.write(data)
        return path

    def extract(self, blob, src='src', options=None, **kw):
        path = self.write('in.bin', blob) if blob is not None else self.at('w', 'in.bin')
        kw.setdefault('temp_dir', self.at('w', 'temp'))
        self.quiet(self.api.extract, path, self.at('w', src), options=None if options is None else dict(options), **kw)
        return self.at('w', src)

    def build(self, src='src', out='out.bin', options=None, **kw):
        kw.setdefault('temp_dir', self.at('w', 'temp'))
        self.quiet(self.api.build, self.at('w', src), self.at('w', out),
                   options=None if options is None else dict(options), **kw)
        with open(self.at('w', out), 'rb') as f:
            return f.read()

    def roundtrip(self, tree, options=None, **kw):
        self.start()
        self.extract(v8conf.pack(tree), options=options, **kw)
        return v8conf.unpack(self.build(options=options, **kw))
