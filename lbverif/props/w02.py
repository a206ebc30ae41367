"""W02: a cached model is complete, current and survives failed updates."""
import contextlib
import gzip
import hashlib
import io
import os
import shutil
import sys
import tarfile
import tempfile
from unittest import mock

from hypothesis import strategies as st
import requests
import urllib3

from lambeq.text2diagram.model_based_reader.base import ModelBasedReader
from lambeq.text2diagram.model_based_reader.model_downloader import \
    ModelDownloaderError
from lbverif.core import check, expect, prop
from lbverif.props.w01 import answer

P = 'W02'
prop(P, ['the server is a stand-in below the requests library',
         'a crash is an exception at a change of the file system',
         'a first download that is interrupted is not used offline',
         'files of the former version that the new one lacks may stay'])


class Crash(BaseException):
    pass


# ---- crashes at the changes of the file system ---------------------------

class Faults:
    root = None
    at = None
    seen = 0
    fired = None


WRITES = {'os.rename': 1, 'os.mkdir': 0, 'os.remove': 0, 'os.rmdir': 0,
          'os.truncate': 0}


def watch(event, args):
    if Faults.root is None:
        return
    if event == 'open':
        path, mode, flags = args
        if not isinstance(flags, int) or not flags & (
                os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            return
    elif event in WRITES:
        path = args[WRITES[event]]
    else:
        return
    try:
        path = os.fsdecode(path)
    except TypeError:
        return
    if not path.startswith(Faults.root):
        return
    if Faults.seen == Faults.at:
        Faults.at, Faults.fired = None, f'{event} {path}'
        raise Crash(Faults.fired)
    Faults.seen += 1


def init():
    sys.addaudithook(watch)


# ---- the server ----------------------------------------------------------

FILES = ['config.json', 'model.bin', 'vocab/a.txt', 'vocab/sub/b.txt',
         'grammar.json']


def pack(files):
    out = io.BytesIO()
    with gzip.GzipFile(fileobj=out, mode='w', mtime=0) as z, \
            tarfile.open(fileobj=z, mode='w') as t:
        for name in sorted(files):
            data = files[name].encode() * 700
            info = tarfile.TarInfo(name)
            info.size = len(data)
            t.addfile(info, io.BytesIO(data))
    return out.getvalue()


class Broken:
    """A body that ends too early."""
    def __init__(self, data):
        self.data = data

    def stream(self, n, decode_content=None):
        yield self.data
        raise urllib3.exceptions.ProtocolError('connection lost')

    def read(self, *a, **k):
        raise urllib3.exceptions.ProtocolError('connection lost')

    def close(self):
        pass

    release_conn = close


class Server:
    def __init__(self):
        self.version, self.files = None, None
        self.faults = {}
        self.asked = []

    def send(self, adapter, request, **kw):
        u = request.url
        name = u.rsplit('/', 1)[1]
        expect(u.startswith('https://') and '/models/' in u
               and f'/{self.model}/latest/' in u and name in (
                   'version.txt', 'model_checksum.sha256', 'model.tar.gz')
               and 'user-agent' in request.headers,
               lambda: f'request of {u} with {request.headers}')
        self.asked.append(name)
        fault = self.faults.get(name)
        if fault == 'offline':
            raise requests.ConnectionError('no network')
        if fault == 'timeout':
            raise requests.exceptions.ReadTimeout('too slow')
        if isinstance(fault, int):
            return answer(request, fault, b'<html>Error</html>\n')
        tar = pack(self.files)
        if self.faults.get('model.tar.gz') == 'no tar':
            tar = b'no archive' * 20
        elif self.faults.get('model.tar.gz') == 'half a tar':
            tar = tar[:len(tar) * 2 // 3]
        if name == 'version.txt':
            data = self.version + '\n'
        elif name == 'model_checksum.sha256':
            data = hashlib.sha256(tar).hexdigest() + '  model.tar.gz\n'
            if fault == 'wrong':
                data = '0' * 64 + '  model.tar.gz\n'
        else:
            data = tar
            if fault == 'flip':
                i = len(tar) // 2
                data = tar[:i] + bytes([tar[i] ^ 1]) + tar[i + 1:]
            elif fault == 'cut':
                data = tar[:-50]
            elif fault == 'longer':
                data = tar + b'x'
            elif fault == 'empty':
                data = b''
        r = answer(request, 200,
                   data.encode() if isinstance(data, str) else data,
                   {'content-length': str(len(data)),
                    'content-type': 'text/plain'})
        if fault == 'lost':
            r.raw = Broken(data[:len(data) // 2])
        return r


class Reader(ModelBasedReader):
    def _initialise_model(self, **kwargs):
        pass

    def sentence2diagram(self, *a, **k):
        pass


def sees(path):
    """The files of a folder."""
    out = {}
    for d, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, errors='replace') as g:
                out[os.path.relpath(p, path)] = g.read()
    return out


# ---- histories -----------------------------------------------------------

@st.composite
def history(draw):
    def pick(*xs):
        return draw(st.sampled_from(xs))
    n = 0
    ops = [{'op': 'publish', 'v': '1.0', 'n': 0,
            'files': draw(st.lists(st.sampled_from(FILES), min_size=1,
                                   unique=True))}]
    kinds = draw(st.one_of(
        st.lists(st.sampled_from(['publish', 'start', 'start', 'start',
                                  'crash', 'tamper']), min_size=2,
                 max_size=7),
        st.builds(lambda a, b, c: ['good', 'publish', a, *b, c],
                  st.sampled_from(['crash', 'bad']),
                  st.lists(st.sampled_from(['publish', 'crash', 'bad',
                                            'start', 'tamper']),
                           max_size=3),
                  st.sampled_from(['start', 'good', 'bad']))))
    for k in kinds:
        if k == 'publish':
            n += 1
            ops.append({'op': k, 'v': pick('1.0', '1.1', '1.2', '1.10',
                                           '2.0-rc1'), 'n': n,
                        'files': draw(st.lists(st.sampled_from(FILES),
                                               min_size=1, unique=True))})
            continue
        if k == 'tamper':
            ops.append({'op': k, 'file': pick(*FILES)})
            continue
        faults = {}
        if k == 'bad' or k == 'start' and pick(0, 0, 1):
            f = pick('version.txt', 'model_checksum.sha256', 'model.tar.gz',
                     'model.tar.gz', 'all')
            opts = ['offline', 'timeout', 404, 503]
            if f == 'model.tar.gz':
                opts += ['flip', 'cut', 'longer', 'empty', 'lost', 'lost',
                         'no tar', 'half a tar']
            elif f == 'model_checksum.sha256':
                opts += ['wrong', 'wrong']
            v = pick(*opts)
            faults = ({x: v for x in ('version.txt', 'model.tar.gz',
                                      'model_checksum.sha256')}
                      if f == 'all' else {f: v})
        ops.append({'op': 'start', 'force': k != 'good' and pick(False, False, True),
                    'verbose': pick('suppress', 'text', 'progress'),
                    'faults': faults,
                    'crash': draw(st.integers(0, 30)) if k == 'crash'
                    else None, 'local': pick(*[False] * 7, True)})
    return {'ops': ops, 'model': pick('bobcat', 'oncilla'),
            'env': pick(False, False, True)}


@check(P, 'updates', history, quick=2400, shards=4, init=init,
       rule='a start with a fault or a crash while a model is cached, and '
            'another start afterwards')
def updates(s, ctx):
    tmp = tempfile.mkdtemp(prefix='lbverif-w02-')
    server = Server()
    server.model = s['model']
    patches = contextlib.ExitStack()
    patches.enter_context(mock.patch('requests.adapters.HTTPAdapter.send',
                                     lambda a, r, **k: server.send(a, r,
                                                                   **k)))
    cache = os.path.join(tmp, 'cache')
    if s['env']:
        patches.enter_context(mock.patch.dict(os.environ,
                                              XDG_CACHE_HOME=cache))
    patches.enter_context(mock.patch('tempfile.tempdir', tmp))
    patches.enter_context(contextlib.redirect_stderr(io.StringIO()))
    patches.enter_context(contextlib.redirect_stdout(io.StringIO()))
    with patches:
        try:
            play(s, ctx, server, tmp, cache)
        finally:
            Faults.root = None
            shutil.rmtree(tmp, ignore_errors=True)


def holds(content, files):
    return all(content.get(f) == x * 700 for f, x in files.items())


def play(s, ctx, server, tmp, cache):
    published = {}
    hurt = again = tampered = False
    local = os.path.join(tmp, 'mine')
    os.mkdir(local)
    where = os.path.join(cache, 'lambeq', s['model'], s['model'])
    for k, op in enumerate(s['ops']):
        if op['op'] == 'publish':
            server.version = op['v']
            server.files = {f: f'{f} {op["n"]};' for f in op['files']}
            published.setdefault(op['v'], []).append(server.files)
            continue
        before = sees(where)
        if op['op'] == 'tamper':
            if op['file'] in before:
                with open(os.path.join(where, op['file']), 'w') as f:
                    f.write('spoilt')
                tampered = True
            continue

        faults = server.faults = op['faults']
        server.asked = []
        args = {'force_download': op['force'], 'verbose': op['verbose'],
                'cache_dir': None if s['env'] else cache}
        if op['local']:
            r = Reader(local, **args)
            expect(str(r.model_dir) == local and not server.asked
                   and not os.listdir(local),
                   lambda: f'a local model is looked up: {r.model_dir}, '
                   f'{server.asked}')
            continue
        exists = os.path.isdir(where)
        old = before.get('version.txt')
        remote = None if 'version.txt' in faults else server.version
        due = op['force'] or not exists or remote not in (None, old)
        again = again or hurt
        r = err = None
        Faults.root, Faults.at, Faults.seen = tmp, op['crash'], 0
        Faults.fired = None
        try:
            r = Reader(s['model'], **args)
        except Crash:
            pass
        except Exception as e:
            err = e
        finally:
            Faults.root = None
        crashed = Faults.fired    # even if a finaliser swallowed it
        now = sees(where)
        new = now.get('version.txt')
        here = f'start {k}, version {old!r} in the cache, {remote!r} offered'
        if faults or crashed:
            hurt = hurt or exists
        if crashed:
            ctx.label('crash')
            expect(not new or tampered
                   or any(holds(now, x) for x in published[new]),
                   lambda: f'{here}: after a crash at {crashed} the cache '
                   f'passes for version {new} but has {sizes(now)}',
                   'crash')
        elif not due:
            if not old and err is not None:
                continue
            ctx.label('kept')
            expect(err is None, lambda: f'{here}: {err!r}')
            expect(now == before and 'model.tar.gz' not in server.asked,
                   lambda: f'{here}: nothing is due, but {server.asked} is '
                   f'asked for, and the cache changes from {sizes(before)} '
                   f'to {sizes(now)}')
        elif not faults:
            ctx.label('updated')
            expect(err is None, lambda: f'{here}: {err!r}')
            expect(new == server.version and holds(now, server.files),
                   lambda: f'{here}: {sizes(now)} with version {new!r} is '
                   f'not {server.files}')
            tampered = False
        else:
            ctx.label('fallback' if old else 'refused')
            expect(now == before, lambda: f'{here}: the failure {faults} '
                   f'changes the cache from {sizes(before)} to {sizes(now)}')
            if old:
                expect(err is None, lambda: f'{here}: the failure {faults} '
                       f'is not survived: {err!r}', 'fallback')
            else:
                expect(isinstance(err, (ModelDownloaderError,
                                        requests.RequestException)),
                       lambda: f'{here}: the failure {faults} gives {err!r}')
        if r is not None:
            expect(str(r.model_dir) == where, lambda: f'{here}: the model is '
                   f'said to be in {r.model_dir}')
    ctx.nontrivial(again)


def sizes(content):
    return {f: x[:24] for f, x in content.items()}
