"""C26  Updates of the model library."""

import contextlib
import io
import json
import logging
import os
import pathlib
import shutil
import tempfile
import warnings
from unittest import mock

import requests

from engine.harness import assume_note, harness

assume_note(
    'the network is a stand-in for GitHub at requests.Session.request: releases, '
    'lightweight and annotated tags, branches, three-dot comparisons (changes since the '
    'common ancestor, at most 300 files) and raw files',
    'a crash is an interruption (such as Ctrl-C) at a request, in the middle of a '
    'response, or in the middle of a write; what was written before it stays',
    'a file of which a commit has the same content as an earlier served one is served '
    'with the same bytes; contents are told apart by a symbolic number per commit')

# A - B and A - C: B and C are on different branches
PARENT = {'A': None, 'B': 'A', 'C': 'A'}
SHA = {c: (c.lower() + '1') * 20 for c in PARENT}
TAG = {'A': 'v1.9.0', 'B': 'v1.10.0', 'C': 'v2.0.0rc1'}
ANNOTATED = ('B',)


class Crash(BaseException):
    """The process is interrupted."""


def ancestors(c):
    out = []
    while c is not None:
        out.append(c)
        c = PARENT[c]
    return out


class Response:
    def __init__(self, hub, text=None, data=None, status=200, cut=None):
        self.hub, self.status_code, self.data, self.cut = hub, status, data, cut
        self.body = text.encode() if text is not None else json.dumps(data).encode()
        self.ok = status < 400
        self.headers = {'content-length': str(len(self.body))}
        self.encoding = 'utf-8'

    def raise_for_status(self):
        if not self.ok:
            raise requests.exceptions.HTTPError(f'{self.status_code} error',
                                                response=self)

    def json(self, **_k):
        return json.loads(self.content)

    def iter_content(self, chunk_size=1, **_k):
        half = len(self.body) // 2
        yield self.body[:half]
        if self.cut is not None:
            raise self.cut
        yield self.body[half:]

    @property
    def content(self):
        return b''.join(self.iter_content())

    @property
    def text(self):
        return self.content.decode()

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_a):
        return False


class Write(io.IOBase):
    """A file opened for writing; the process may be interrupted half-way."""

    def __init__(self, hub, f):
        self.hub, self.f, self.got = hub, f, []

    def write(self, data):
        self.got.append(data if isinstance(data, str) else bytes(data))
        return len(data)

    def flush(self):
        pass

    def _put(self, part=None):
        if not self.got:
            return
        data = self.got[0][:0].join(self.got)
        self.f.write(data if part is None else data[:len(data) // 2])

    def close(self):
        if self.f is None:
            return
        f = self.f
        try:
            fault = self.hub.step('write')
            self._put(fault)
        finally:
            f.close()
            self.f = None
        if fault:
            raise (Crash('while writing') if fault == 'crash'
                   else OSError(28, 'No space left on device'))

    def __enter__(self):
        return self

    def __exit__(self, kind, *_a):
        if kind is None:
            self.close()
        elif self.f is not None:
            self._put()
            self.f.close()
            self.f = None
        return False


class Hub:
    """GitHub, with symbolic contents of the files, and a schedule of one fault."""

    def __init__(self, ctx, files, latest='B', others=(), branch=None, listed=None):
        self.ctx, self.files, self.latest = ctx, list(files), latest
        self.others, self.branch = list(others), branch
        self.v, self.served, self.list, self.fix = {}, {}, {}, listed
        self.raw, self.asked, self.k, self.n, self.hit = [], [], None, 0, None
        self.tag_failed = False

    # contents
    def content(self, f, c):
        if (f, c) not in self.v:
            self.v[f, c] = self.ctx.int(f'content of {f} at {c}', 0, 3)
        return self.v[f, c]

    def listing(self, c):
        if c not in self.list:
            self.list[c] = [
                f for f in self.files
                if (f in self.fix[c] if self.fix else f == self.files[0] or
                    self.ctx.flag(f'{f} listed at {c}'))]
        return self.list[c]

    def bytes_of(self, f, c):
        for c2 in self.served.setdefault(f, []):
            if c2 == c or bool(self.content(f, c2) == self.content(f, c)):
                return f'{f} as of {c2}, ' + 'x' * 20
        self.served[f].append(c)
        return f'{f} as of {c}, ' + 'x' * 20

    def manifest(self, c):
        return f'# models at {c}\n\n' + ''.join(f'{f}\n' for f in self.listing(c))

    def commit(self, ref):
        for c, sha in SHA.items():
            if ref in (sha, sha[:7], TAG[c]):
                return c
        if ref == 'main' and self.branch:
            return self.branch
        return None

    def compare(self, base, head):
        if base == head:
            return {'status': 'identical', 'files': []}
        mb = next(c for c in ancestors(head) if c in ancestors(base))
        status = ('ahead' if mb == base else 'behind' if mb == head else 'diverged')
        names = ['README.md', *self.others] if mb != head else []
        for f in self.files:
            if mb != head and bool(self.content(f, mb) != self.content(f, head)):
                names.append(f)
        return {'status': status,
                'files': [{'filename': f, 'status': 'modified'}
                          for f in sorted(names)[:300]]}

    # faults
    def schedule(self, name, last, crash=True):
        self.n, self.hit, self.crash = 0, None, crash
        self.k = self.ctx.int(name, 0, last)
        self.name = name

    def calm(self):
        self.k, self.n, self.hit, self.tag_failed = None, 0, None, False

    def step(self, where):
        if self.k is None or self.hit is not None:
            return None
        here = bool(self.k == self.n)
        self.n += 1
        if not here:
            return None
        self.hit = where
        kinds = {'query': ['connection', 'http', 'crash'],
                 'file': ['connection', 'http', 'cut', 'crash'],
                 'write': ['crash', 'disk']}[where]
        if not self.crash:
            kinds.remove('crash')
        return self.ctx.choice(f'{self.name}: kind', kinds)

    # requests
    def request(self, _session, method, url, **_k):
        assert method.upper() == 'GET', method
        self.asked.append(url)
        raw = 'raw.githubusercontent' in url
        fault = self.step('file' if raw else 'query')
        self.tag_failed = self.tag_failed or bool(fault and '/git/' in url)
        if fault == 'connection':
            raise requests.exceptions.ConnectionError(f'no connection to {url}')
        if fault == 'crash' and not raw:
            raise Crash(url)
        if fault == 'http':
            return Response(self, data={}, status=502)
        cut = (Crash(url) if fault == 'crash' else
               requests.exceptions.ChunkedEncodingError('connection broken')
               if fault == 'cut' else None)
        if raw:
            ref, name = url.split('DamageAndLossModelLibrary/', 1)[1].split('/', 1)
            c = self.commit(ref)
            self.raw.append(name)
            if c is None or (name not in self.files and name != 'model_files.txt'):
                return Response(self, text='404: Not Found', status=404)
            return Response(self, cut=cut, text=self.manifest(c)
                            if name == 'model_files.txt' else self.bytes_of(name, c))
        data = self.api(url.split('DamageAndLossModelLibrary', 1)[1])
        return Response(self, data=data or {}, status=200 if data is not None else 404)

    def release(self, c):
        return {'tag_name': TAG[c],
                'target_commitish': 'main' if self.branch else SHA[c]}

    def api(self, q):
        if q == '/releases/latest':
            return self.release(self.latest)
        if q.startswith('/releases/tags/'):
            c = self.commit(q.rsplit('/', 1)[1])
            return None if c is None else self.release(c)
        if q.startswith('/git/refs/tags/'):
            c = self.commit(q.rsplit('/', 1)[1])
            if c is None:
                return None
            return {'object': {'type': 'tag', 'sha': 'tag' + SHA[c]}
                    if c in ANNOTATED else {'type': 'commit', 'sha': SHA[c]}}
        if q.startswith('/git/tags/tag'):
            return {'object': {'type': 'commit', 'sha': q.rsplit('/tag', 1)[1]}}
        if q.startswith('/commits'):
            return [{'sha': SHA['B']}, {'sha': SHA['A']}]
        if q.startswith('/compare/'):
            base, head = (self.commit(x) for x in q[len('/compare/'):].split('...'))
            return None if None in (base, head) else self.compare(base, head)
        return None


@contextlib.contextmanager
def world(hub):
    d = pathlib.Path(tempfile.mkdtemp(prefix='verif-c26-'))
    keep = {k: os.environ.get(k) for k in ('DLML_DATA_DIR',)}
    real = pathlib.Path.open

    def path_open(self, mode='r', *a, **k):
        f = real(self, mode, *a, **k)
        inside = str(self).startswith(str(d))
        return Write(hub, f) if inside and 'w' in mode else f

    level = logging.getLogger('pelicun.dlml').level
    os.environ['DLML_DATA_DIR'] = str(d / 'library')
    logging.getLogger('pelicun.dlml').setLevel(logging.CRITICAL)
    try:
        with mock.patch.object(requests.sessions.Session, 'request',
                               lambda s, method, url, **k: hub.request(
                                   s, method, url, **k)), \
                mock.patch.object(pathlib.Path, 'open', path_open), \
                contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()), \
                warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield d / 'library'
    finally:
        logging.getLogger('pelicun.dlml').setLevel(level)
        for k, v in keep.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        shutil.rmtree(d, ignore_errors=True)


def verify(ctx, hub, d, target, what):
    """The library on the disk is the one of the target."""
    for f in hub.listing(target):
        p = d / f
        if not p.exists():
            ctx.fail(f'{what}: a file is missing [{f}]')
        text = p.read_bytes().decode()
        for c in hub.served.get(f, []):
            if text == f'{f} as of {c}, ' + 'x' * 20:
                ctx.eq(hub.content(f, c), hub.content(f, target),
                       f'{what}: contents of a file [{f}]')
                break
        else:
            ctx.fail(f'{what}: a file is damaged [{f}]', text)
    p = d / 'model_files.txt'
    ctx.check(p.exists() and p.read_text() == hub.manifest(target),
              f'{what}: list of files')
    ctx.reach(f'{what}: verified')


def update(how, target, use_cache):
    from pelicun.tools import dlml

    if how == 'commit':
        dlml.dlml_update(commit=SHA[target][:7], use_cache=use_cache)
    elif how == 'latest':
        dlml.dlml_update(use_cache=use_cache)
    elif how == 'latest commit':
        dlml.dlml_update(commit='latest', use_cache=use_cache)
    else:
        dlml.dlml_update(version=TAG[target], use_cache=use_cache)


def named(how, target):
    return ('commit-' + SHA[target][:7]) if 'commit' in how else TAG[target]


class Library:
    """A library directory with its history of updates."""

    def __init__(self, ctx, hub, d):
        self.ctx, self.hub, self.d = ctx, hub, d
        self.last, self.damaged = None, False

    def attempt(self, name, how, target, use_cache=True, faults=0):
        ctx, hub = self.ctx, self.hub
        hub.calm()
        if faults:
            hub.schedule(f'{name}: step of the fault', faults)
        try:
            update(how, target, use_cache)
        except (RuntimeError, OSError, Crash) as e:
            if hub.hit is None:
                ctx.fail(f'an update without a fault fails [{name}]', repr(e))
            ctx.reach('update failed: ' + hub.hit)
            done = False
        else:
            ctx.reach('update finished' + (' despite a fault' if hub.hit else ''))
            done = True
        label = 'update'
        if hub.tag_failed and hub.branch:
            label = 'release of which the tag lookup failed'
        hub.calm()
        if not done:
            return False
        if not (self.damaged and use_cache and self.last == target):
            verify(ctx, hub, self.d, target, label)
            self.damaged = False
        self.last = target
        return True

    def damage(self, name):
        present = [f for f in self.hub.files if (self.d / f).exists()]
        if not present or not self.ctx.flag(f'{name}: files damaged'):
            return
        f = self.ctx.choice(f'{name}: which', present)
        if self.ctx.flag(f'{name}: removed'):
            (self.d / f).unlink()
        else:
            (self.d / f).write_bytes(b'edited')
        self.damaged = True
        self.ctx.reach('files damaged')

    def again(self, how, target):
        """Nothing is downloaded for the version that is installed."""
        n = len(self.hub.raw)
        self.attempt('again', how, target)
        self.ctx.check(len(self.hub.raw) == n, 'nothing downloaded again')


@harness('an installed commit A, an update to B, C or A by version or commit, with or '
         'without the cache, interrupted at any one of its requests, responses and '
         'writes; then an update to any of the commits; 2 files, contents free',
         params=[{'mid': m, 'end': e} for m in 'BC' for e in 'ABC'],
         must_reach=('update failed: file', 'update failed: write',
                     'update: verified', 'update finished despite a fault'),
         time_limit=400, max_paths=20000, weight=3)
def interrupted(ctx, mid, end):
    files = ['fragility.csv', 'a/b/loss.csv']
    hub = Hub(ctx, files, latest='B', listed=dict.fromkeys(PARENT, files))
    with world(hub) as d:
        lib = Library(ctx, hub, d)
        lib.attempt('install', 'version', 'A')
        use_cache = ctx.flag('middle update uses the cache')
        lib.attempt('middle', ctx.choice('middle: how', ['version', 'commit']), mid,
                    use_cache, faults=14)
        how = 'version' if use_cache else 'commit'
        cached = ctx.flag('last update uses the cache')
        lib.attempt('last', how, end, cached)
        if cached:
            lib.again(how, end)


@harness('any sequence of three updates among the commits A, B, C (on two branches), '
         'by version, commit, latest; files edited or removed between them; 2 files, '
         'contents free, the second file listed or not at each commit',
         params=[{'first': a, 'second': b} for a, b in ('AB', 'BA', 'BC', 'CB')],
         thorough=[{'first': a, 'second': b} for a, b in
                   ('AA', 'AC', 'BB', 'CA', 'CC')],
         must_reach=('update: verified', 'files damaged'),
         time_limit=400, max_paths=20000)
def histories(ctx, first, second):
    hub = Hub(ctx, ['fragility.csv', 'a/b/loss.csv'], latest='B')
    with world(hub) as d:
        lib = Library(ctx, hub, d)
        lib.attempt('first', 'version', first)
        lib.damage('then')
        lib.attempt('second', 'commit', second)
        third = ctx.choice('third', ['A', 'B', 'C', 'latest', 'latest commit'])
        how, third = ((third, 'B') if third.startswith('latest') else
                      ('version', third))
        lib.attempt('third', how, third)
        if not lib.damaged:
            lib.again(how, third)


@harness('a comparison of two commits that differ in 296 to 304 files besides the one '
         'of interest, in either order and on different branches',
         params=[{'base': a, 'head': b} for a, b in ('AB', 'BA', 'BC')],
         must_reach=('update: verified', 'many'), time_limit=300)
def many_changes(ctx, base, head):
    n = ctx.int('other changed files', 296, 304)
    others = [f'doc{i:04d}.md' for i in range(304)]
    hub = Hub(ctx, ['zeta.csv'], others=others[:int(n)],
              listed=dict.fromkeys(PARENT, ['zeta.csv']))
    with world(hub) as d:
        lib = Library(ctx, hub, d)
        lib.attempt('first', 'commit', base)
        lib.attempt('second', 'commit', head)
        ctx.reach('many')


@harness('the first import downloads the library and is interrupted at any request, '
         'response or write, with a cache of a removed library left or not; the next '
         'imports; 2 files',
         params=[{'left': x} for x in (False, True)],
         must_reach=('update: verified', 'first download failed'), time_limit=300)
def first_download(ctx, left):
    from pelicun.tools import dlml

    files = ['fragility.csv', 'a/loss.csv']
    hub = Hub(ctx, files, latest='B', listed=dict.fromkeys(PARENT, files))
    with world(hub) as d:
        if left:
            hub.calm()
            update('latest', 'B', True)
            for f in (*files, 'model_files.txt'):
                (d / f).unlink()
        hub.schedule('step of the fault', 14)
        try:
            dlml.check_dlml_data()
            ok = True
        except (RuntimeError, OSError, Crash):
            ctx.reach('first download failed')
            ctx.check(hub.hit is not None, 'the first download works')
            ok = False
        hub.calm()
        if ok:
            verify(ctx, hub, d, 'B', 'update')
        dlml.check_dlml_data()
        verify(ctx, hub, d, 'B', 'update')
        n = len(hub.raw)
        dlml.check_dlml_data()
        ctx.check(len(hub.raw) == n, 'nothing downloaded again')


@harness('a release made from a branch that has moved on; the lookup of the tag '
         'succeeds or fails',
         params=[{'faulty': x} for x in (False, True)], must_reach=('update: verified',))
def moved_branch(ctx, faulty):
    hub = Hub(ctx, ['fragility.csv'], latest='A', branch='B',
              listed=dict.fromkeys(PARENT, ['fragility.csv']))
    with world(hub) as d:
        lib = Library(ctx, hub, d)
        lib.attempt('install', 'version', 'C')
        lib.attempt('release', ctx.choice('how', ['version', 'latest']), 'A',
                    ctx.flag('uses the cache'), faults=8 if faulty else 0)
        lib.attempt('release again', 'version', 'A')


@harness('the command line: the version latest, given or left out, a version, a commit, '
         'with and without --no-cache in any place, after another version was '
         'installed; 2 files, contents free',
         params=[{'target': t} for t in
                 ('', 'latest', 'A', 'B', 'C', 'commit A', 'commit C', 'commit latest')],
         must_reach=('update: verified',))
def command_line(ctx, target):
    import sys

    from pelicun import cli

    files = ['fragility.csv', 'a/loss.csv']
    hub = Hub(ctx, files, latest='A', listed=dict.fromkeys(PARENT, files))
    words = {'': [], 'latest': ['latest'], 'commit latest': ['commit latest'],
             'commit A': ['commit ' + SHA['A'][:7]],
             'commit C': ['commit ' + SHA['C'][:7]]}.get(target) or (
                 [TAG[target]] if target else [])
    want = ('A' if target in ('', 'latest') else 'B' if target == 'commit latest'
            else target[-1])
    logger = logging.getLogger('pelicun.dlml')
    handlers = list(logger.handlers)
    with world(hub) as d:
        lib = Library(ctx, hub, d)
        lib.attempt('install', 'version', ctx.choice('installed', 'ABC'))
        if lib.last == want:
            lib.damage('then')
        cached = ctx.flag('cached')
        if not cached:
            words.insert(ctx.choice('place', range(len(words) + 1)), '--no-cache')
        try:
            with mock.patch.object(sys, 'argv', ['pelicun', 'dlml', 'update', *words]):
                cli.main()
        finally:
            logger.handlers[:] = handlers
        if cached and lib.damaged:
            return
        verify(ctx, hub, d, want, 'update')
        ctx.check(cached or len(hub.raw) >= 6, 'everything downloaded again')
