"""Simulator for the scripting interface (python/pyoprf): sockets, TLS, select,
clocks, randomness and participants are simulated, the repository's Python and C
code is real.  Same commands and plan format as the C++ simulator.

  pysim.py OUT batch CHECK SEED FIRST COUNT WORKERS SECS TIER DIR
  pysim.py OUT plan CHECK SEED INDEX TIER | run LIMIT ERR LIST | list
"""
import ctypes, ctypes.util, gc, hashlib, importlib.util, itertools, mmap, os, random, signal, ssl, struct, sys, time, traceback, types

sys.dont_write_bytecode = True
OUT = sys.argv[1]
REPO = os.environ.get('VERIF_REPO', '/repo')
_find = ctypes.util.find_library
# 'c' too: allocation and release have to go through the same allocator
ctypes.util.find_library = lambda n: os.path.join(OUT, 'liboprf-sim.so') if 'oprf' in n else os.path.join(OUT, 'libc-sim.so') if n in ('c', 'libc') else _find(n)
os.environ.pop('BYZANTINE_DKG', None)
sys.path.insert(0, os.path.join(REPO, 'python'))
import pysodium  # noqa: E402

seam = ctypes.CDLL(os.path.join(OUT, 'liboprf-sim.so'))
seam.pyseam_seed.argtypes = [ctypes.c_int, ctypes.c_uint64]
seam.pyseam_clock.argtypes = [ctypes.c_int, ctypes.c_int64]
seam.pyseam_draws.restype = ctypes.c_uint64
seam.pyseam_live.restype = ctypes.c_int64
if seam.pyseam_init() < 0:
    sys.exit(3)
EPOCH = 1700000000000


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ plan, result

class Plan:
    def __init__(self, check=''):
        self.check, self.p, self.f = check, {}, []

    def get(self, k, d=0):
        return self.p.get(k, d)

    def add(self, what, **a):
        self.f.append((what, a))

    def of(self, kind):
        return [a for k, a in self.f if k == kind]

    def text(self):
        o = 'check %s\n' % self.check
        for k in sorted(self.p):
            o += 'param %s %d\n' % (k, self.p[k])
        for k, a in self.f:
            o += 'fault ' + ' '.join([k] + ['%s=%d' % (x, a[x]) for x in sorted(a)]) + '\n'
        return o

    @staticmethod
    def parse(txt):
        p = Plan()
        for l in txt.split('\n'):
            w = l.split()
            if not w or w[0].startswith('#'):
                continue
            if w[0] == 'check':
                p.check = w[1]
            elif w[0] == 'param':
                p.p[w[1]] = int(w[2])
            elif w[0] == 'fault':
                p.f.append((w[1], {k: int(v) for k, v in (x.split('=') for x in w[2:])}))
            else:
                raise HarnessError('bad plan line ' + l)
        return p


class Result:
    def __init__(self):
        self.hh = hashlib.blake2b(digest_size=8)
        self.il = hashlib.blake2b(digest_size=8)
        self.sim_ms = self.events = 0
        self.nontrivial = False
        self.states, self.fired, self.probe, self.v = [], {}, {}, []

    def h(self, *x):
        self.hh.update(repr(x).encode())

    def act(self, *x):
        self.il.update(repr(x).encode())
        self.events += 1

    def state(self, *x):
        self.states.append(int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'little'))

    def hit(self, k, n=1):
        self.probe[k] = self.probe.get(k, 0) + n

    def fire(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def viol(self, tag, det):
        if len(self.v) < 20:
            self.v.append((tag, det))
        self.h(tag)

    def text(self):
        o = 'hash %s\nilv %s\nsim_ms %d\nevents %d\nnontrivial %d\n' % (self.hh.hexdigest(), self.il.hexdigest(), self.sim_ms, self.events, int(self.nontrivial))
        for k in sorted(self.fired):
            o += 'fired %s %d\n' % (k, self.fired[k])
        for k in sorted(self.probe):
            o += 'probe %s %d\n' % (k, self.probe[k])
        for t, d in self.v:
            o += 'viol %s %s\n' % (t, d.replace('\n', ' '))
        for s in self.states[:4000]:
            o += 'state %016x\n' % s
        return o


# --------------------------------------------- simulated sockets (M01 and M02)

class Stuck(BaseException):
    """the client waits for something that will never happen"""


class Spin(BaseException):
    """the client keeps calling without any progress"""


class Net:
    """One client, several servers; the only clock there is."""

    def __init__(self):
        self.now = 0
        self.fd = 10
        self.conns = {}
        self.servers = {}
        self.calls = self.idle = self.waits = 0

    def tick(self):
        self.calls += 1
        if self.calls > 60000:
            raise Spin()


NET = None


class Conn:
    """The client's end of a connection as the kernel sees it: items (arrival,
    kind, data) in order.  For TLS a record becomes readable when its last piece
    has arrived; pieces before that only make the socket readable."""

    def __init__(self, srv):
        self.srv, self.q, self.last = srv, [], 0
        self.dead = None

    def put(self, t, kind, data=b''):
        self.last = max(self.last, t)
        self.q.append((self.last, kind, data))

    def ready(self):
        return bool(self.dead) or (self.q and self.q[0][0] <= NET.now)

    def next_time(self):
        return NET.now if self.dead else self.q[0][0] if self.q else None


class FakeSocket:
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        NET.fd += 1
        self._fd, self._timeout, self._conn = NET.fd, None, None
        self._buf = b''

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, b):
        self._timeout = None if b else 0

    def setsockopt(self, *a):
        pass

    def fileno(self):
        return self._fd

    def _open(self):
        if self._fd < 0:
            raise OSError(9, 'Bad file descriptor')

    def connect(self, addr):
        self._open()
        NET.tick()
        s = NET.servers.get(tuple(addr))
        if s is None or s.refuse:
            raise ConnectionRefusedError(111, 'Connection refused')
        if getattr(s, 'stall', False):
            if self._timeout is None:
                raise Stuck()
            NET.now += int(self._timeout * 1000)
            raise TimeoutError('timed out')
        NET.now += s.lat(3)
        self._conn = s.accept()
        NET.conns[self._fd] = self

    def _wait(self, end):
        """block until something arrives or `end`"""
        NET.waits += 1
        t = self._conn.next_time()
        if t is None or (end is not None and t > end):
            if end is None:
                raise Stuck()
            NET.now = max(NET.now, end)
            raise TimeoutError('The read operation timed out')
        NET.now = max(NET.now, t)

    def _end(self):
        return None if self._timeout is None else NET.now + int(self._timeout * 1000)

    def recv(self, n, flags=0):
        self._open()
        NET.tick()
        if self._conn is None:
            raise OSError(107, 'Transport endpoint is not connected')
        if n == 0:
            return b''
        end, c = self._end(), self._conn
        while True:
            if self._buf:
                k = min(n, len(self._buf), c.srv.short() or n)
                r, self._buf = self._buf[:k], self._buf[k:]
                while not c.srv.tls and len(r) < n and not c.srv.gap and c.q and c.q[0][0] <= NET.now and c.q[0][1] == 'data' and not self._buf:
                    self._buf = c.q.pop(0)[2]
                    m = n - len(r)
                    r, self._buf = r + self._buf[:m], self._buf[m:]
                c.srv.taken += len(r)
                c.srv.R.act(c.srv.i, len(r))
                return r
            c.srv.told = c.srv.told or bool(c.dead)
            if c.dead == 'rst':
                raise ConnectionResetError(104, 'Connection reset by peer')
            if c.dead == 'eof':
                return b''
            if c.q and c.q[0][0] <= NET.now:
                _, kind, data = c.q.pop(0)
                if kind == 'data':
                    self._buf = data
                elif kind in ('eof', 'rst'):
                    c.dead = kind
                continue
            self._wait(end)

    def recv_into(self, b, nbytes=0, flags=0):
        d = self.recv(nbytes or len(b))
        b[:len(d)] = d
        return len(d)

    read = lambda self, n=1024, buffer=None: self.recv(n)

    def sendall(self, data, flags=0):
        self._open()
        NET.tick()
        if self._conn is None:
            raise OSError(107, 'Transport endpoint is not connected')
        if self._conn.dead == 'rst' or (self._conn.q and self._conn.q[0][1] == 'rst' and self._conn.q[0][0] <= NET.now):
            raise BrokenPipeError(32, 'Broken pipe')
        if self._conn.srv.tls and not isinstance(self, FakeSSLSocket):
            self._conn.srv.plain = True
        data = bytes(data)
        while data:     # the connection takes only part at once
            k = self._conn.srv.room() or len(data)
            self._conn.srv.receive(data[:k])
            data = data[k:]

    def send(self, data, flags=0):
        k = min(len(data), (self._conn and self._conn.srv.room()) or len(data))
        self.sendall(data[:k])
        return k

    write = send

    def shutdown(self, how):
        self._open()
        if self._conn is None or self._conn.dead == 'rst':
            raise OSError(107, 'Transport endpoint is not connected')

    def close(self):
        NET.conns.pop(self._fd, None)
        if self._conn:
            self._conn.srv.told = True
        self._fd = -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FakeSSLSocket(FakeSocket):
    def __init__(self, sock, ctx, host):
        self._fd, self._timeout, self._conn, self._buf = sock._fd, sock._timeout, sock._conn, b''
        self._ctx, self._host = ctx, host
        sock._fd = -1
        if self._conn:
            NET.conns[self._fd] = self
            self._handshake()

    def connect(self, addr):
        super().connect(addr)
        self._handshake()

    def _handshake(self):
        try:
            self._ctx._verify(self._conn.srv, self._host)
        except Exception:
            self.close()
            raise

    def do_handshake(self, block=False):
        pass

    def pending(self):
        return len(self._buf) if self._fd >= 0 else 0


class FakeContext:
    """Rules of ssl.SSLContext as far as they decide which server is accepted."""

    def __init__(self, protocol=None, *a, default=False, cafile=None, **k):
        strict = default or protocol == ssl.PROTOCOL_TLS_CLIENT
        self._name, self._mode = strict, ssl.CERT_REQUIRED if strict else ssl.CERT_NONE
        self.minimum_version, self.maximum_version = ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3
        self._trust = {cafile} if cafile else {'default'} if default else set()

    check_hostname = property(lambda self: self._name)
    verify_mode = property(lambda self: self._mode)

    @check_hostname.setter
    def check_hostname(self, v):
        self._name = bool(v)
        if v and self._mode == ssl.CERT_NONE:
            self._mode = ssl.CERT_REQUIRED

    @verify_mode.setter
    def verify_mode(self, v):
        if v == ssl.CERT_NONE and self._name:
            raise ValueError('Cannot set verify_mode to CERT_NONE when check_hostname is enabled.')
        self._mode = ssl.VerifyMode(v)

    def load_verify_locations(self, cafile=None, capath=None, cadata=None):
        if cafile is None and capath is None and cadata is None:
            raise TypeError('cafile, capath and cadata cannot be all omitted')
        self._trust.add(cafile)

    def load_default_certs(self, purpose=None):
        self._trust.add('default')

    set_default_verify_paths = load_default_certs

    def load_cert_chain(self, *a, **k):
        pass

    set_ciphers = set_alpn_protocols = load_cert_chain

    def wrap_socket(self, sock, server_side=False, do_handshake_on_connect=True, suppress_ragged_eofs=True, server_hostname=None, session=None):
        if self._name and not server_hostname:
            raise ValueError('check_hostname requires server_hostname')
        return FakeSSLSocket(sock, self, server_hostname)

    def _verify(self, srv, host):
        c = getattr(srv, 'cert', None)
        if not srv.tls or (c and c.get('none')):
            raise ssl.SSLError(1, '[SSL: WRONG_VERSION_NUMBER] wrong version number')
        if c is None:
            c = {'issuer': 'public', 'names': {'host%d' % srv.i}, 'old': False, 'expired': False}
        if c['old'] and self.minimum_version >= ssl.TLSVersion.TLSv1_2:
            raise ssl.SSLError(1, '[SSL: UNSUPPORTED_PROTOCOL] unsupported protocol')
        if self._mode != ssl.CERT_NONE:
            if ('default' if c['issuer'] == 'public' else c['issuer'].replace('self', 'own') + '.pem') not in self._trust or c['expired']:
                raise ssl.SSLCertVerificationError(1, '[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed')
            if self._name and host not in c['names']:
                raise ssl.SSLCertVerificationError(1, '[SSL: CERTIFICATE_VERIFY_FAILED] Hostname mismatch')


def default_context(*a, cafile=None, **k):
    return FakeContext(default=True, cafile=cafile)


def fake_select(r, w, x, timeout=None):
    NET.tick()
    NET.waits += 1
    fds = [(f, f if isinstance(f, int) else f.fileno()) for f in r]
    for f, k in fds:
        if k < 0:
            raise ValueError('file descriptor cannot be a negative integer (%d)' % k)
        if k not in NET.conns:
            raise OSError(9, 'Bad file descriptor')
    if w:
        return [f for f, k in fds if NET.conns[k]._conn.ready()], list(w), []
    end = None if timeout is None else NET.now + int(timeout * 1000)
    while True:
        got = [f for f, k in fds if NET.conns[k]._conn.ready()]
        if got:
            NET.idle = 0
            NET.conns[fds[0][1]]._conn.srv.R.act(tuple(k for f, k in fds if f in got))
            return got, [], []
        nxt = [t for t in (NET.conns[k]._conn.next_time() for f, k in fds) if t is not None]
        if not nxt:
            NET.idle += 1
            if end is None or NET.idle > 40:
                raise Stuck()
        if not nxt or (end is not None and min(nxt) > end):
            NET.now = end
            return [], [], []
        NET.now = max(NET.now, min(nxt))


class FakePoll:
    def __init__(self):
        self.r = {}

    def register(self, f, mask=0):
        self.r[f if isinstance(f, int) else f.fileno()] = mask

    def unregister(self, f):
        del self.r[f if isinstance(f, int) else f.fileno()]

    def poll(self, timeout=None):
        got, _, _ = fake_select(list(self.r), [], [], None if timeout is None or timeout < 0 else timeout / 1000)
        return [(f, 1) for f in got]


def fake_module(name, **over):
    real = importlib.import_module(name)
    m = types.ModuleType(name)
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith('__')})
    m.__dict__.update(over)
    return m


def fake_sleep(s):
    NET.tick()
    NET.now += int(s * 1000)


def load_multiplexer():
    """imports multiplexer.py with simulated socket, select, ssl and time modules"""
    fakes = {
        'socket': fake_module('socket', socket=FakeSocket, create_connection=None),
        'ssl': fake_module('ssl', create_default_context=default_context, SSLContext=FakeContext, SSLSocket=FakeSSLSocket),
        'select': fake_module('select', select=fake_select, poll=FakePoll),
        'time': fake_module('time', time=lambda: 1.7e9 + NET.now / 1000, monotonic=lambda: NET.now / 1000, sleep=fake_sleep),
    }
    keep = {k: sys.modules.get(k) for k in fakes}
    try:
        sys.modules.update(fakes)
        sys.modules.pop('selectors', None)
        spec = importlib.util.spec_from_file_location('pyoprf_multiplexer_sim', os.path.join(REPO, 'python', 'pyoprf', 'multiplexer.py'))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        sys.modules.pop('selectors', None)
    return m


class Server:
    """One simulated server: replies to each exchange (or pushes all replies once
    asked), in records that the network cuts, delays or joins as planned."""

    def __init__(self, i, plan, lens, R):
        self.i, self.plan, self.lens, self.R = i, plan, lens, R
        self.tls = not plan.get('tcp%d' % i)
        self.rng = random.Random(plan.get('seed') * 64 + i)
        self.told = False
        self.refuse = bool([a for a in plan.of('conn.refuse') if a['srv'] == i])
        self.conn, self.inbox, self.seen = None, b'', 0
        self.taken = 0          # bytes the client has read
        self.sent_at = {}       # exchange -> arrival of its last byte
        self.ended = None       # arrival of the end of the connection
        self.silent = False
        self.replies, self.kept = [], b''
        self.sent, self.ends = 0, []
        self.gap = False
        self.benign = True
        for n in lens:
            self.replies.append(bytes(self.rng.randrange(256) for _ in range(n)))
        self.shorts = [a['n'] for a in plan.of('recv.short') if a['srv'] == i]
        self.rooms = [a['n'] for a in plan.of('send.short') if a['srv'] == i]

    def short(self):
        if not self.tls and self.shorts:
            self.R.fire('recv.short')
            return self.shorts.pop(0)
        return 0

    def room(self):
        if self.rooms:
            self.R.fire('send.short')
            return self.rooms.pop(0)
        return 0

    def lat(self, k):
        return self.rng.randrange(1, 1 + self.plan.get('lat', 5) + k)

    def accept(self):
        self.conn = Conn(self)
        for a in self.plan.of('tls.ticket'):
            if a['srv'] == self.i and self.tls:
                self.R.fire('tls.ticket')
                self.conn.put(NET.now + self.lat(1), 'noise')
                self.ticket = True
        return self.conn

    def fault(self, kind, k):
        for a in self.plan.of(kind):
            if a['srv'] == self.i and a['k'] == k:
                return a
        return None

    def receive(self, data):
        self.inbox += data
        want = self.plan.get('req', 8)
        while len(self.inbox) >= want * (self.seen + 1):
            self.seen += 1
            if self.plan.get('push'):
                if self.seen == 1:
                    for k in range(len(self.lens)):
                        self.reply(k)
            else:
                self.reply(self.seen - 1)

    def end(self, t, kind):
        self.conn.put(t, kind)
        self.ended = self.conn.last
        self.silent = True
        self.benign = False

    def reply(self, k):
        if self.silent:
            return
        t = max(NET.now, self.conn.last) + self.lat(0)
        a = self.fault('delay', k)
        if a:
            self.R.fire('delay')
            t += a['ms']
            if a['ms'] > 900 and getattr(self, 'ticket', False):
                self.benign = False
        data, stop = self.replies[k], None
        for kind in ('peer.eof', 'peer.reset', 'peer.stall', 'peer.fail', 'peer.failopen'):
            a = self.fault(kind, k)
            if a:
                stop = kind
                self.R.fire(kind)
                data = b'\x00\x04fail' if kind.startswith('peer.fail') and len(data) >= 6 else data[:a['at'] % max(1, len(data))]
                break
        if self.fault('coalesce', k) and not stop and k + 1 < len(self.lens) and self.plan.get('push') and self.tls:
            self.R.fire('coalesce')
            self.kept += data
            self.pend = getattr(self, 'pend', []) + [k]
            return
        rec, ks = self.kept + data, getattr(self, 'pend', []) + ([] if stop else [k])
        self.kept, self.pend = b'', []
        for j in ks:
            self.ends.append((j, sum(self.lens[:j + 1])))
        self.transmit(t, rec, self.fault('frag', k))
        if stop in ('peer.eof', 'peer.fail'):
            self.end(self.conn.last + self.lat(0), 'eof')
        elif stop == 'peer.reset':
            self.end(self.conn.last + self.lat(0), 'rst')
        elif stop:
            self.silent, self.benign = True, False

    def data(self, t, b):
        self.conn.put(t, 'data', b)
        self.sent += len(b)
        for j, e in self.ends:
            if e <= self.sent and j not in self.sent_at:
                self.sent_at[j] = self.conn.last

    def transmit(self, t, rec, frag):
        parts, gap, recs = 1, 0, 1
        if frag:
            self.R.fire('frag')
            parts, gap, recs = frag['parts'], frag['gap'], frag.get('recs', 1)
            # a reply that takes longer than the client's timeout may be given up
            if gap * parts * recs >= 4000 or (gap > 300 and getattr(self, 'ticket', False)):
                self.benign = False
        size = max(1, -(-len(rec) // recs)) if rec else 1
        for o in range(0, len(rec), size):
            piece = rec[o:o + size]
            if self.tls:
                for j in range(parts - 1):      # pieces of a record: readable, but nothing to decrypt yet
                    self.conn.put(t, 'noise')
                    t += gap
                self.data(t, piece)
                t += gap
            else:
                m = max(1, -(-len(piece) // parts))
                for q in range(0, len(piece), m):
                    self.data(t, piece[q:q + m])
                    t += gap


def gen_mux(r, check, thorough):
    p = Plan(check)
    n = r.randint(2, 6)
    rounds = r.randint(1, 5)
    p.p.update(servers=n, rounds=rounds, seed=r.randrange(1 << 40), lat=r.choice([1, 5, 60, 900]), req=r.choice([1, 8, 33]), push=int(r.random() < .4))
    kind = r.choice(['tls', 'tls', 'tcp', 'mixed'])
    for i in range(n):
        if kind == 'tcp' or (kind == 'mixed' and r.random() < .5):
            p.p['tcp%d' % i] = 1
    same = r.random() < .5
    ln = r.choice([1, 5, 6, 7, 33, 64, 200])
    for k in range(rounds):
        p.p['len%d' % k] = ln if same else r.choice([1, 2, 6, 7, 33, 33, 64, 200, 1500])
        if r.random() < (.7 if k == rounds - 1 else .05) and r.random() < .6:
            p.p['need%d' % k] = r.randint(1, n)
        if r.random() < .3:
            p.p['proc%d' % k] = r.randint(1, 3)
    if r.random() < .2:
        p.p['debug'] = 1
    fl = r.randint(0, 6)
    for _ in range(fl):
        i, k = r.randrange(n), r.randrange(rounds)
        kd = r.choice(['frag', 'frag', 'frag', 'delay', 'delay', 'coalesce', 'coalesce', 'recv.short', 'recv.short', 'send.short', 'tls.ticket', 'peer.eof', 'peer.eof', 'peer.reset', 'peer.stall', 'peer.fail', 'peer.fail', 'peer.failopen', 'conn.refuse'])
        if kd == 'conn.refuse' and r.random() < .8:
            continue
        if kd == 'frag':
            p.add(kd, srv=i, k=k, parts=r.randint(1, 4), gap=r.choice([0, 1, 20, 700, 1900, 2500] + ([5200] if r.random() < .3 else [])), recs=r.choice([1, 1, 2, 3]))
        elif kd == 'delay':
            p.add(kd, srv=i, k=k, ms=r.choice([10, 500, 2100, 4000, 9000, 30000]))
        elif kd == 'coalesce':
            for j in range(k, min(rounds, k + r.randint(1, 3))):
                p.add(kd, srv=i, k=j)
            if r.random() < .7:
                p.p['push'] = 1
        elif kd == 'recv.short':
            for _ in range(r.randint(1, 4)):
                p.add(kd, srv=i, n=r.choice([1, 1, 2, 5, 32, 100]))
        elif kd == 'send.short':
            for _ in range(r.randint(1, 3)):
                p.add(kd, srv=i, n=r.choice([1, 1, 2, 5, 32]))
        elif kd in ('tls.ticket', 'conn.refuse'):
            p.add(kd, srv=i)
        else:
            p.add(kd, srv=i, k=k, at=r.choice([0, 1, 3, 6, r.randrange(2000)]))
    return p


PROCS = {1: lambda b: b.hex(), 2: lambda b: [b[:1], b[1:]], 3: lambda b: (len(b), b)}


def exec_mux(p, R):
    global NET
    NET = Net()
    n, rounds = max(1, p.get('servers', 2)), max(1, p.get('rounds', 1))
    lens = [p.get('len%d' % k, 33) for k in range(rounds)]
    srv = [Server(i, p, lens, R) for i in range(n)]
    for i in range(n):
        NET.servers[('host%d' % i, 4000 + i)] = srv[i]
    mux = MUX.Multiplexer({'server%d' % i: {'host': 'host%d' % i, 'port': 4000 + i, 'type': 'SSL' if srv[i].tls else 'TCP', 'ssl_cert': None} for i in range(n)})
    M1 = lambda t, d: R.viol('M01.' + t, d) if p.check == 'M01' else None
    M2 = lambda t, d: R.viol('M02.' + t, d) if p.check == 'M02' else None
    try:
        mux.connect()
    except Exception as e:
        R.h('connect', type(e).__name__)
        R.act('connect', type(e).__name__)
        if any(s.refuse for s in srv):
            R.fire('conn.refuse')
        else:
            M2('connect', 'connecting to reachable servers fails: %s: %s' % (type(e).__name__, e))
            M1('connect', 'connecting to reachable servers fails: %s: %s' % (type(e).__name__, e))
        try:
            mux.close()
        except Exception as e2:
            M2('close', 'closing after a failed connection attempt fails: %s' % type(e2).__name__)
        return done_mux(R)
    over = lambda s: s.told or (s.ended is not None and s.ended <= NET.now)
    requests = [b''] * n
    behind = [False] * n        # left out by an earlier collection while its reply was under way
    gone = [False] * n          # connection ended in an earlier exchange
    for k in range(rounds):
        need = min(n, max(1, p.get('need%d' % k, n)))
        proc = PROCS.get(p.get('proc%d' % k))
        req = bytes((k * 16 + j) & 255 for j in range(p.get('req', 8)))
        err = None
        if not any(gone) and k % 2 == 0:
            try:
                mux.broadcast(req)
            except OSError as e:
                err = e
            if err is None:
                requests = [x + req for x in requests]
        else:
            for i in range(n):
                try:
                    mux.send(i, req)
                    requests[i] += req
                except OSError as e:
                    if not over(srv[i]):
                        M2('send', 'exchange %d: sending to server %d fails although its connection is open: %s' % (k + 1, i + 1, e))
        if err is not None:     # a connection broke meanwhile; the caller gives up
            R.act('send', k)
            if not any(over(s) for s in srv):
                M2('send', 'exchange %d: sending fails although all connections are open: %s' % (k + 1, err))
            break
        NET.calls = NET.idle = 0
        known = [s.told for s in srv]   # connections the client has seen end
        args = {'debug': True} if p.get('debug') else {}
        if 'need%d' % k in p.p:
            args['n'] = need
        if proc:
            args['proc'] = proc
        res = exc = None
        try:
            res = mux.gather(lens[k], **args)
        except Stuck:
            exc = 'stuck'
        except Spin:
            exc = 'spin'
        except Exception as e:
            exc = '%s: %s' % (type(e).__name__, e)
        t = NET.now
        full = [i for i in range(n) if k in srv[i].sent_at and srv[i].sent_at[k] <= t and not behind[i] and not gone[i]]
        ended = [i for i in range(n) if i not in full and srv[i].ended is not None and srv[i].ended <= t]
        other = [i for i in range(n) if i not in ended and not srv[i].benign]
        fresh = [i for i in ended if not known[i]]
        R.act(k, exc.split(':')[0] if exc else tuple(int(x is not None) for x in res) if isinstance(res, list) else 0)
        R.h(k, exc, res, t)
        R.state(k, len(full), len(ended), len(other), need, exc is None)
        what = 'exchange %d: %d of %d replies asked for, %d delivered, %d connections ended' % (k + 1, need, n, len(full), len(ended))
        if exc in ('stuck', 'spin'):
            if len(full) + len(fresh) >= need:
                M2(exc, '%s, but collecting %s' % (what, 'waits forever' if exc == 'stuck' else 'loops without progress'))
            elif n - sum(known) < need:
                M2('noerror', '%s, so it cannot be met, but collecting %s' % (what, 'waits forever' if exc == 'stuck' else 'loops without progress'))
            elif exc == 'spin':
                M2('spin', '%s, and collecting loops without waiting' % what)
            else:
                R.hit('waits_for_silent_server')
            break
        if exc:
            R.hit('collect_error')
            # servers that answered or still may
            able = [i for i in range(n) if i in full or not (behind[i] or gone[i] or known[i] or i in ended or i in other)]
            if len(able) >= need and len(fresh) + len(other) < need:
                M2('raised', '%s, %d more to come, but collecting fails with %s' % (what, len(able) - len(full), exc))
            elif not exc.startswith(('ValueError', 'TimeoutError', 'ConnectionResetError', 'OSError')):
                M2('error', '%s: collecting fails with %s' % (what, exc))
            break
        R.hit('collected')
        if not isinstance(res, (list, tuple)) or len(res) != n:
            M1('shape', '%s: result has not one slot per server' % what)
            break
        vals = 0
        for i in range(n):
            want = proc(srv[i].replies[k]) if proc else srv[i].replies[k]
            if res[i] is None:
                if need == n and i in full and srv[i].benign:
                    M1('lost', '%s: the complete reply of server %d is reported as failed' % (what, i + 1))
                continue
            vals += 1
            if res[i] == want and i in full:
                R.hit('replies_right')
                continue
            if res[i] == want and not behind[i]:
                M1('early', '%s: slot of server %d filled before its reply was complete' % (what, i + 1))
                continue
            where = [(a, b) for a in range(n) for b in range(rounds) if res[i] == (proc(srv[a].replies[b]) if proc else srv[a].replies[b])]
            if behind[i]:
                M1('late', '%s: slot of server %d, left out by an earlier collection, holds bytes of the earlier exchange' % (what, i + 1))
            elif [1 for a, b in where if a != i]:
                M1('swapped', '%s: slot of server %d holds a reply of another server' % (what, i + 1))
            elif where:
                M1('mixed', '%s: slot of server %d holds the reply of another exchange' % (what, i + 1))
            else:
                M1('partial', '%s: slot of server %d does not hold what the server sent (%d bytes wanted, reply ends %s)' % (what, i + 1, lens[k], 'with the connection' if srv[i].ended else 'early'))
        failed = len([i for i in range(n) if res[i] is None and (i in ended or i in other or gone[i] or behind[i])])
        if vals + failed < need:
            M1('few', '%s: only %d replies and %d failures handed out' % (what, vals, failed))
        for i in range(n):
            if res[i] is None and not (i in ended):
                behind[i] = True
            if i in ended:
                gone[i] = True
        if vals == 0:
            M2('nothing', '%s: no server gave a reply, but collecting reports no error' % what)
    for i in range(n):
        if srv[i].inbox != requests[i] and not (err is not None and srv[i].inbox == requests[i] + req):
            M1('request', 'server %d received %d bytes of requests, %d were sent to it' % (i + 1, len(srv[i].inbox), len(requests[i])))
    try:
        mux.close()
    except Exception as e:
        M2('close', 'closing fails: %s: %s' % (type(e).__name__, e))
    left = [f for f in NET.conns]
    if left:
        M2('close', '%d connections are still open after closing' % len(left))
    done_mux(R)


def done_mux(R):
    R.sim_ms = max(1, NET.now)
    R.hit('waits', NET.waits)
    R.nontrivial = sum(R.fired.values()) > 0


# ------------------------------------------------- connections (M06)

BAD_CERTS = 5


class Site(Server):
    """A server that may be impersonated, silent or unreachable at some attempts."""

    def __init__(self, i, plan, ln, R, attempt):
        super().__init__(i, plan, [ln], R)
        self.attack = self.stall = self.refuse = False
        self.host = '10.0.0.%d' % (i + 1) if plan.get('ip%d' % i) else 'host%d' % i
        self.plain = False
        self.cert = {'issuer': 'self%d' % i if plan.get('own%d' % i) else 'public', 'names': {'other' if plan.get('own%d' % i) == 2 else self.host}, 'old': False, 'expired': False}
        for kind, a in plan.f:
            if a.get('srv') != i or a.get('try') != attempt:
                continue
            if kind == 'conn.refuse':
                self.refuse = True
            elif kind == 'conn.stall':
                self.stall = True
            elif kind == 'net.impostor' and self.tls:
                self.attack = True
                k = a['cert'] % BAD_CERTS
                self.cert = {'issuer': 'stranger' if k == 0 else 'public', 'names': {'evil'} if k in (0, 1) else {self.host},
                             'expired': k == 2, 'old': k == 3, 'none': k == 4}
                if k == 0 and a['cert'] >= BAD_CERTS:       # own signature on the right name
                    self.cert['names'] = {self.host}
            else:
                continue
            R.fire(kind)


def gen_conn(r, check, thorough):
    p = Plan(check)
    n, tries = r.randint(1, 6), r.randint(1, 4)
    p.p.update(servers=n, tries=tries, seed=r.randrange(1 << 40), lat=r.choice([1, 5, 60, 900]), req=r.choice([1, 8, 33]), len=r.choice([1, 6, 33, 200]))
    for i in range(n):
        k = r.random()
        if k < .2:
            p.p['tcp%d' % i] = 1
        elif k < .4:
            p.p['own%d' % i] = r.randint(1, 2)
        if r.random() < .25:
            p.p['ip%d' % i] = 1
    if r.random() < .1:
        p.p['kind%d' % r.randrange(n)] = r.randint(1, len(ODD_TYPES))
    for a in range(tries):
        if r.random() < .3:
            p.p['again%d' % a] = 1
        if r.random() < .4:
            p.p['retry%d' % a] = 1
        p.p['with%d' % a] = r.randint(0, 3)
        if r.random() < .7:
            p.add(r.choice(['net.impostor', 'net.impostor', 'net.impostor', 'conn.stall', 'conn.refuse']), srv=r.randrange(n), cert=r.randrange(2 * BAD_CERTS), **{'try': a})
    return p


class Boom(Exception):
    pass


ODD_TYPES = ['NOISE', 'ssl', 'UDP', '']


def exec_conn(p, R):
    global NET
    NET = Net()
    n, ln = max(1, p.get('servers', 2)), max(1, p.get('len', 33))
    mux = None
    for a in range(max(1, p.get('tries', 1))):
        site = [Site(i, p, ln, R, a) for i in range(n)]
        for i in range(n):
            NET.servers[(site[i].host, 4000 + i)] = site[i]
        verified = [i for i in range(n) if site[i].tls and not p.get('own%d' % i)]
        attacked = [i for i in verified if site[i].attack]
        # servers with a certificate of their own are trusted as they are, old versions and plain text excepted
        odd = {i: ODD_TYPES[p.get('kind%d' % i) - 1] for i in range(n) if p.get('kind%d' % i)}     # no such kind of connection
        broken = [i for i in range(n) if i in odd or site[i].refuse or site[i].stall or (site[i].attack and (site[i].cert['old'] or site[i].cert.get('none')))]
        how, got, err = p.get('with%d' % a), None, None
        if mux is None or how != 3:
            mux = MUX.Multiplexer({'server%d' % i: dict({'host': site[i].host, 'port': 4000 + i, 'ssl_cert': 'own%d.pem' % i if p.get('own%d' % i) else None}, **({'type': odd[i]} if i in odd else {} if site[i].tls else {'type': 'TCP'})) for i in range(n)})
        NET.calls = NET.idle = 0
        t0 = NET.now
        what = 'attempt %d to reach %d servers' % (a + 1, n)

        def use():
            nonlocal got, err
            try:
                mux.connect()
            except Exception as e:
                err = e
                return
            if p.get('again%d' % a):
                R.hit('connected_again')
                before = len(NET.conns)
                try:
                    mux.connect()
                    R.viol('M06.again', '%s: connecting a second time is not refused' % what)
                except ValueError:
                    pass
                if len(NET.conns) != before:
                    R.viol('M06.again', '%s: connecting a second time leaves %d instead of %d connections' % (what, len(NET.conns), before))
            mux.broadcast(bytes(range(p.get('req', 8))))
            got = mux.gather(ln)

        try:
            if how in (1, 2):
                try:
                    with mux:
                        use()
                        if how == 2:
                            raise Boom()
                except Boom:
                    pass
                else:
                    if how == 2:
                        R.viol('M06.swallowed', '%s: an error of the caller is swallowed' % what)
            else:
                use()
        except (Stuck, Spin):
            R.viol('M06.stuck', '%s waits forever%s' % (what, ' although a server does not answer' if broken else ''))
            break
        except Exception as e:
            R.viol('M06.error', '%s: %s: %s' % (what, type(e).__name__, e))
            break
        if NET.now - t0 > 60000:
            R.viol('M06.slow', '%s takes %d s' % (what, (NET.now - t0) // 1000))
        R.act(a, type(err).__name__, got is not None)
        R.h(a, type(err).__name__, got, NET.now)
        R.state(n, len(verified), len(attacked), len(broken), err is None)
        if err is None and attacked:
            R.viol('M06.accepted', '%s: server %d is impersonated (%s) but accepted' % (what, attacked[0] + 1, 'certificate of %s for %s' % (site[attacked[0]].cert['issuer'], sorted(site[attacked[0]].cert['names'])[0])))
        elif err is None and broken:
            R.viol('M06.accepted', '%s: server %d cannot be reached properly, but no error is raised' % (what, broken[0] + 1))
        elif err is not None and not attacked and not broken:
            R.viol('M06.refused', '%s fails although all servers are reachable and genuine: %s: %s' % (what, type(err).__name__, err))
        old = []
        if err is not None and p.get('retry%d' % a) and how not in (1, 2) and not odd:
            # the servers are back: peers that are not connected can be connected one by one
            R.hit('retried')
            for i in range(n):
                if any(c._conn.srv is site[i] for c in NET.conns.values()):
                    continue
                old.append((i, site[i]))
                site[i] = NET.servers[(site[i].host, 4000 + i)] = Site(i, p, ln, R, -1)
                try:
                    mux[i].connect()
                except (Stuck, Spin):
                    R.viol('M06.stuck', '%s: connecting to server %d once it is reachable waits forever' % (what, i + 1))
                except Exception as e:
                    R.viol('M06.retry', '%s failed; server %d, reachable now, cannot be connected: %s: %s' % (what, i + 1, type(e).__name__, e))
            if not R.v:
                try:
                    mux.broadcast(bytes(range(p.get('req', 8))))
                    got = mux.gather(ln)
                except (Stuck, Spin):
                    got = 'waits forever'
                except Exception as e:
                    got = '%s: %s' % (type(e).__name__, e)
                R.h(a, 'retry', got)
                if got != [s.replies[0] for s in site]:
                    R.viol('M06.retry', '%s failed; after connecting again the replies are not what the servers sent: %s' % (what, got))
        if err is not None:
            R.hit('refused')
        elif got != [s.replies[0] for s in site] and not attacked and not broken:
            R.viol('M06.reply', '%s: replies are not what the servers sent' % what)
        for i in range(n):
            if site[i].plain:
                R.viol('M06.plain', '%s: request to server %d is sent in the clear' % (what, i + 1))
            if i in odd and site[i].inbox:
                R.viol('M06.kind', '%s: %d bytes of requests are sent to server %d over a connection of another kind than configured' % (what, len(site[i].inbox), i + 1))
        for i, s in old + list(enumerate(site)):
            if s.attack and i in attacked and s.inbox:
                R.viol('M06.leak', '%s: %d bytes of requests are sent to an impostor of server %d' % (what, len(s.inbox), i + 1))
        if how not in (1, 2):
            try:
                mux.close()
            except Exception as e:
                R.viol('M06.close', '%s: closing fails: %s: %s' % (what, type(e).__name__, e))
        if NET.conns:
            R.viol('M06.open', '%s: %d connections are left open' % (what, len(NET.conns)))
            break
    done_mux(R)


# ------------------------------------------------- key generation (M03)

O = NX = None       # the bindings under test


def actor(a, ms):
    seam.pyseam_use(a)
    seam.pyseam_clock(a, EPOCH + ms)


def gen_dkg(r, check, thorough):
    p = Plan(check)
    ns = r.choice([1, 1, 2, 2, 3])
    p.p.update(sessions=ns, seed=r.randrange(1 << 40), churn=int(r.random() < .6), odd=int(r.random() < .3), eps=r.choice([5, 60, 600]))
    if r.random() < .15:            # no limit to speak of
        p.p['eps'] = r.choice([86400 * 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) + 3, 1 << 40])
    if r.random() < .25:            # a session that takes its time
        p.p['pace'] = r.randrange(min(p.p['eps'] * 1000 // 800, 10 ** 10))
    for s in range(ns):
        n = r.choice([3, 3, 4, 5] if r.random() < .9 else [6, 7, 9])
        p.p['n%d' % s], p.p['t%d' % s] = n, r.randint(2, n - 1)
        p.p['name%d' % s] = r.randrange(6)
        if r.random() < .06:        # many dealers cheat on many
            for i in r.sample(range(n), r.randint(2, n)):
                for v in range(n):
                    if v != i and r.random() < .9:
                        p.add('evil', s=s, peer=i, to=v, x=r.randrange(256))
    for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
        s = r.randrange(ns)
        n = p.p['n%d' % s]
        k = r.choice(['up', 'up', 'down', 'down', 'size', 'size', 'evil', 'evil', 'evil', 'crash', 'skew'])
        i = r.randrange(n)
        if k in ('up', 'down'):
            p.add(k, s=s, round=r.randrange(10), peer=i, kind=r.randrange(6), x=r.randrange(100000))
        elif k == 'size':
            p.add(k, s=s, round=r.randrange(10), peer=r.randrange(-1, n), x=r.randrange(4))
        elif k == 'evil':
            for v in range(n):
                if v != i and r.random() < .6:
                    p.add(k, s=s, peer=i, to=v, x=r.randrange(256))
        elif k == 'crash':
            p.add(k, s=s, round=r.randrange(1, 9), peer=i)
        else:
            p.add(k, s=s, peer=i, ms=r.choice([-1, 1]) * r.choice([1000, 2000, p.p['eps'] * 1000 + 3000, 10 ** 7]))
    return p


NAMES = ['simulated key generation', 'simulated key generatioN', 'k\u00e9y', 'a', 'protocol-1', 'protocol-2']


class Session:
    def __init__(self, w, s):
        self.w, self.s, self.R, self.p = w, s, w.R, w.p
        self.n = min(9, max(3, w.p.get('n%d' % s, 3)))
        self.t = min(self.n - 1, max(2, w.p.get('t%d' % s, 2)))
        self.round = 0
        self.up, self.oldup, self.olddown = [b''] * self.n, [], []
        self.err = [None] * self.n
        self.tperr = None
        self.bad = set()            # peers (1-based) whose messages or dealings were disturbed
        self.disturbed = False
        self.gone = False
        self.evil = set()
        self.edges = 0              # wrong shares dealt
        self.base = s * 10
        self.now = 0
        self.skew = {a['peer'] % self.n: max(a['ms'], -EPOCH // 2) for a in w.p.of('skew') if a['s'] == s}
        self.over = False

    def act(self, who):
        # time passes for each session on its own, else one that is left waiting for the others outlives its window
        at = self.now + (self.skew.get(who - 1, 0) if who else 0)
        actor(self.base + who, at)
        self.clock = (EPOCH + at) // 1000
        self.now += self.w.rng.randrange(0, 40) + self.p.get('pace')
        self.w.now = max(self.w.now, self.now)

    def faults(self, kind, peer):
        return [a for a in self.p.of(kind) if a['s'] == self.s and a['peer'] % self.n == peer and a.get('round', self.round) == self.round]

    def alter(self, m, a, pool, w):
        """one disturbed message"""
        k, x = a['kind'], a['x']
        if not m:
            return m
        if k == 0 or k == 1:
            b = bytearray(m)
            b[x % len(b)] ^= 1 << (x % 7)
            return bytes(b)
        if k == 2:
            return bytes(len(m))
        if k == 3:
            return bytes((c ^ x) & 255 for c in m)
        same = [z for z in pool if len(z) == len(m) and z != m]
        if k == 4 and same:
            return same[x % len(same)]
        other = [z for t in w.ss if t is not self for z in t.oldup + t.olddown if len(z) == len(m)]
        if k == 5 and other:
            return other[x % len(other)]
        return m

    def start(self):
        r = self.w.rng
        for k in range(self.n + 1):
            seam.pyseam_seed(self.base + k, self.p.get('seed') * 97 + self.base + k)
        self.sk = []
        pks = []
        for i in range(self.n):
            pk, sk = pysodium.crypto_sign_seed_keypair(bytes(r.randrange(256) for _ in range(32)))
            pks.append(pk)
            self.sk.append(sk)
        self.act(0)
        name = NAMES[self.p.get('name%d' % self.s) % len(NAMES)]
        self.name = name
        self.tp, self.msg0 = O.tpdkg_start_tp(self.n, self.t, self.p.get('eps'), name if self.s % 2 == 0 else name.encode(), pks)
        opened = self.clock
        self.peers = []
        for i in range(self.n):
            self.act(i + 1)
            late = abs(self.clock - opened)
            try:
                self.peers.append(O.tpdkg_peer_start(self.p.get('eps'), self.sk[i], self.msg0))
                if late > self.p.get('eps'):
                    self.R.viol('M03.window', 'a peer takes an opening message that is %d s off with a window of %d s' % (late, self.p.get('eps')))
            except ValueError:
                self.peers.append(None)
                self.err[i] = 'start'
                if late < self.p.get('eps'):
                    self.R.viol('M03.start', 'a peer refuses an opening message that is %d s off with a window of %d s' % (late, self.p.get('eps')))
        for i, v in self.skew.items():
            self.R.fire('skew')
            self.disturbed = True
            self.bad.add(i + 1)

    def call(self, what, f, *a):
        """every error must be a ValueError"""
        try:
            return f(*a), None
        except ValueError as e:
            return None, str(e) or 'error'
        except Exception as e:
            self.R.viol('M03.error', '%s ends with %s: %s' % (what, type(e).__name__, e))
            return None, type(e).__name__

    def step(self):
        """one exchange with the trusted party"""
        R, w = self.R, self.w
        if self.over or not O.tpdkg_tp_not_done(self.tp) or self.round > 40:
            self.over = True
            return
        self.act(0)
        _, sizes = O.tpdkg_tp_input_sizes(self.tp)
        msgs = []
        for i in range(self.n):
            m = self.up[i]
            self.oldup.append(m)
            for a in self.faults('up', i):
                z = self.alter(m, a, self.oldup, w)
                if z != m:
                    R.fire('up')
                    self.disturbed = True
                    self.bad.add(i + 1)
                    m = z
            if len(m) != sizes[i]:
                self.gone = True
            msgs.append(m)
        if self.gone:               # somebody does not answer any more
            R.act(self.s, 'abandoned')
            self.over = True
            return
        inp = b''.join(msgs)
        for a in self.p.of('size'):
            if a['s'] == self.s and a['peer'] < 0 and a['round'] == self.round:
                R.fire('size')
                wrong = [inp + b'\0', inp[:-1], b'', inp + inp][a['x'] % 4]
                if len(wrong) != len(inp):
                    out, e = self.call('a step of the trusted party with input of the wrong size', O.tpdkg_tp_next, self.tp, wrong)
                    if e is None:
                        R.viol('M03.size', 'the trusted party accepts input of the wrong size')
        out, e = self.call('a step of the trusted party', O.tpdkg_tp_next, self.tp, inp)
        R.act(self.s, self.round, 'tp', e)
        if e:
            self.tperr = e
            self.over = True
            return
        self.up = [b''] * self.n
        order = list(range(self.n))
        w.rng.shuffle(order)
        raw = out.raw if hasattr(out, 'raw') else bytes(out)
        R.h(self.s, self.round, raw)
        downs = {}
        if len(raw):
            for i in range(self.n):
                m, e = self.call('taking a peer\'s message', O.tpdkg_tp_peer_msg, self.tp, out, i)
                downs[i] = m if m is not None else b''
        for i in order:
            if self.err[i]:
                continue
            if self.faults('crash', i):
                R.fire('crash')
                self.err[i] = 'crash'
                self.disturbed = True
                continue
            m = downs.get(i, b'')
            self.olddown.append(m)
            for a in self.faults('down', i):
                z = self.alter(m, a, self.olddown, w)
                if z != m:
                    R.fire('down')
                    self.disturbed = True
                    self.bad.add(i + 1)
                    m = z
            self.peer(i, m)
        self.round += 1

    def peer(self, i, m):
        R, P = self.R, self.peers[i]
        for k in range(8):
            if not O.tpdkg_peer_not_done(P):
                return
            need = O.tpdkg_peer_input_size(P)
            if need and (k or not m):
                return
            self.act(i + 1)
            for a in self.faults('size', i):
                if a['peer'] >= 0:
                    wrong = [m + b'\0', m[:-1], b'', m + m][a['x'] % 4]
                    if len(wrong) != need:
                        R.fire('size')
                        out, e = self.call('a step of a peer with input of the wrong size', O.tpdkg_peer_next, P, wrong)
                        if e is None:
                            R.viol('M03.size', 'a peer accepts input of the wrong size')
            had = any(bytes(P[0].share))
            out, e = self.call('a step of a peer', O.tpdkg_peer_next, P, m if need else b'')
            R.act(self.s, self.round, i, e)
            if e:
                if any(bytes(P[0].share)) and not had:
                    R.viol('M03.share', 'a failing step hands a peer a share')
                self.err[i] = e
                return
            R.h(self.s, i, out)
            self.tamper(i, P)
            if len(out):
                self.up[i] = bytes(out)
                return

    def tamper(self, i, P):
        todo = {a['to'] % self.n: a['x'] for a in self.p.of('evil') if a['s'] == self.s and a['peer'] % self.n == i and a['to'] % self.n != i}
        if not todo or i in self.evil or not P[0].shares:
            return
        if not any(ctypes.string_at(P[0].shares, 33 * self.n)):
            return
        for to, x in todo.items():
            at = P[0].shares + 33 * to + 1
            b = ctypes.string_at(at, 1)[0] ^ (1 + x % 255)
            ctypes.memmove(at, bytes([b]), 1)
        self.edges += len(todo)
        self.evil.add(i)
        self.bad.add(i + 1)
        self.R.fire('evil')

    def judge(self):
        R = self.R
        done = [i for i in range(self.n) if not self.err[i] and not O.tpdkg_peer_not_done(self.peers[i])]
        ch, msgs = O.tpdkg_get_cheaters(self.tp)
        ch = sorted(ch)
        R.h(self.s, done, self.tperr, ch, msgs)
        R.state(self.n, self.t, len(done), bool(self.tperr), tuple(ch), self.round)
        what = 'session with %d peers, threshold %d' % (self.n, self.t)
        if ch:
            R.hit('cheaters_reported', len(ch))
        wrong = [c for c in ch if c not in self.bad]
        if wrong:
            R.viol('M03.cheaters', '%s: %s reported as cheating, disturbed were %s' % (what, wrong, sorted(self.bad)))
        if sorted(set(c for c, _ in msgs)) != ch or any(not m for _, m in msgs):
            R.viol('M03.cheaters', '%s: list of reports does not match the set of cheaters' % what)
        if not self.disturbed and not self.evil:
            if self.tperr or len(done) != self.n:
                R.viol('M03.incomplete', '%s: undisturbed, but ends with %s, %d peers done' % (what, self.tperr, len(done)))
                return
        if self.evil and not self.disturbed:
            if not self.tperr and O.tpdkg_tp_not_done(self.tp):
                R.viol('M03.incomplete', '%s: a cheating dealer leaves the session without an end' % what)
            missed = [i + 1 for i in sorted(self.evil) if i + 1 not in ch]
            # with that many complaints the coordinator cannot tell who is cheating
            if missed and self.edges < self.t * self.t:
                R.viol('M03.missed', '%s: dealer %s sent wrong shares but is not reported' % (what, missed))
            R.hit('evil_sessions')
        if self.disturbed or self.evil:
            done = [i for i in done if any(bytes(self.peers[i][0].share))]     # an ended session without result
        ok = [i for i in done if i not in self.evil]
        shares = {i: bytes(self.peers[i][0].share) for i in ok}
        for i in ok:
            if shares[i][0] != i + 1 or not any(shares[i][1:]):
                R.viol('M03.share', '%s: peer %d ends with an unusable share' % (what, i + 1))
                return
        if len(ok) < self.t:
            return
        R.hit('evaluations')
        actor(self.base, self.w.now)
        x = b'input %d' % self.s
        blind, alpha = O.blind(x)
        seen = None
        subsets = list(itertools.combinations(ok, self.t))
        self.w.rng.shuffle(subsets)
        for sub in subsets[:3]:
            parts = [bytes([i + 1]) + O.evaluate(shares[i][1:], alpha) for i in sub]
            y = O.unblind_finalize(blind, O.thresholdmult(parts), x)
            ix = [i + 1 for i in sub]
            z = O.unblind_finalize(blind, O.threshold_combine([O.threshold_evaluate(shares[i], alpha, i + 1, ix) for i in sub]), x)
            k = O.unblind_finalize(blind, O.evaluate(O.dkg_reconstruct([shares[i] for i in sub]), alpha), x)
            if y != z or y != k or (seen and seen != y):
                R.viol('M03.evaluate', '%s: quorums %s do not agree' % (what, ix))
                return
            seen = y
        R.h(seen)


class OddHeap:
    """large buffers start half way between two multiples of 32, as they may with other allocators"""

    def __init__(self):
        self.keep, self.real = [], ctypes.create_string_buffer
        ctypes.create_string_buffer = self.make

    def make(self, init, size=None):
        if size is not None or not isinstance(init, int) or init < 500:
            return self.real(init, size)
        whole = self.real(init + 16)
        off = 0 if ctypes.addressof(whole) % 32 else 16
        ctypes.memset(ctypes.addressof(whole), 0x5a, off)
        b = (ctypes.c_char * init).from_buffer(whole, off)
        self.keep.append((whole, off))
        return b

    def damaged(self):
        return any(w.raw[:off] != b'\x5a' * off for w, off in self.keep)

    def undo(self):
        ctypes.create_string_buffer = self.real


class DkgWorld:
    pass


def exec_dkg(p, R):
    w = DkgWorld()
    w.p, w.R, w.now = p, R, 0
    w.rng = random.Random(p.get('seed'))
    held = seam.pyseam_live()
    heap = OddHeap() if p.get('odd') else None
    w.ss = [Session(w, s) for s in range(min(6, max(1, p.get('sessions', 1))))]
    for s in w.ss:
        s.start()
    junk = []
    while True:
        live = [s for s in w.ss if not s.over]
        if not live:
            break
        w.rng.choice(live).step()
        if p.get('churn'):          # give freed memory new contents
            gc.collect()
            junk = [ctypes.create_string_buffer(b'\xee' * w.rng.choice([33, 64, 66, 96, 128, 256, 500, 900, 2304])) for _ in range(20)]
    for s in w.ss:
        s.judge()
    # the name given as text means the same as its encoding, and other names mean something else
    dst = []
    for name in (w.ss[0].name, w.ss[0].name.encode(), NAMES[(p.get('name0') + 1) % len(NAMES)]):
        seam.pyseam_seed(60, 5)
        actor(60, 0)
        _, m = O.tpdkg_start_tp(3, 2, 5, name, [bytes(32)] * 3)
        dst.append(m[len(m) - 34:len(m) - 2])
    if dst[0] != dst[1]:
        R.viol('M03.name', 'a protocol name given as text is not used like its encoding')
    if dst[0] == dst[2]:
        R.viol('M03.name', 'two protocol names are not told apart')
    for s in w.ss:
        for i, P in enumerate(s.peers):
            if P is not None:
                O.tpdkg_peer_free(P)
    if not R.fired and seam.pyseam_live() > held:
        R.viol('M03.release', 'undisturbed sessions: %d pieces of memory are still held after all peers are released' % (seam.pyseam_live() - held))
    if heap:
        R.hit('odd_heap')
        if heap.damaged():
            R.viol('M03.bounds', 'memory in front of a buffer is overwritten')
        heap.undo()
    R.sim_ms = max(1, w.now)
    R.nontrivial = sum(R.fired.values()) > 0 or len(w.ss) > 1


# ------------------------------------------------------- channels (M04)

def gen_chan(r, check, thorough):
    p = Plan(check)
    k = r.randint(1, 4)
    p.p.update(channels=k, seed=r.randrange(1 << 40), msgs=r.randint(1, 8))
    for i in range(k):
        p.p['low%d' % i] = int(r.random() < .4)
        p.p['others%d' % i] = r.choice([0, 0, 1, 3])
        p.p['plain%d' % i] = int(r.random() < .2)
    for _ in range(r.choice([0, 1, 1, 2, 4, 6])):
        c = r.randrange(k)
        kd = r.choice(['alter', 'alter', 'alter', 'dup', 'swap', 'cross', 'reflect', 'unknown', 'wrongkey', 'dst', 'badpeer', 'hs', 'drop', 'early', 'misuse'])
        if kd in ('alter', 'dup', 'swap', 'cross', 'reflect', 'drop'):
            p.add(kd, ch=c, m=r.randrange(8), kind=r.randrange(6), x=r.randrange(100000))
        elif kd == 'hs':
            p.add(kd, ch=c, m=r.randrange(2), kind=r.randrange(6), x=r.randrange(100000))
        else:
            p.add(kd, ch=c, x=r.randrange(1000))
    return p


def loaded_opening(session, body):
    """an opening message that carries something, which the bindings never send"""
    vp, n, o = ctypes.c_void_p, ctypes.c_uint32(), ctypes.POINTER(ctypes.c_ubyte)()
    seam.Noise_XK_pack_message_with_conf_level.restype = vp
    e = vp(seam.Noise_XK_pack_message_with_conf_level(ctypes.c_uint8(0), ctypes.c_uint32(len(body)), body))
    seam.Noise_XK_session_write(e, vp(session), ctypes.byref(n), ctypes.byref(o))
    seam.Noise_XK_encap_message_p_free(e)
    m = bytes(o[:n.value])
    seam.pyseam_free(o)
    return m


class Chan:
    """One channel: what each end sent, what the other end must accept next."""

    def __init__(self, w, c):
        self.w, self.c, self.R, self.p = w, c, w.R, w.p
        self.sent = {0: [], 1: []}      # per direction: (ciphertext, plaintext)
        self.got = {0: 0, 1: 0}         # accepted so far, per direction
        self.up = False                 # both ends have a session
        self.failed = False             # setup was refused, as it had to be
        self.loose = False              # setup was disturbed: outcome of later reads is open
        self.known = True
        self.spare = []
        self.a = self.b = self.idev = self.rdev = None

    def fault(self, kind):
        return [a for a in self.p.of(kind) if a['ch'] % self.w.k == self.c]

    def attempt(self, f, *a):
        self.w.use(self.c)
        try:
            return f(*a), None
        except ValueError as e:
            return None, 'ValueError'
        except Exception as e:
            self.R.viol('M04.error', '%s ends with %s: %s' % (getattr(f, '__name__', f), type(e).__name__, e))
            return None, type(e).__name__

    def alter(self, m, a):
        k, x = a['kind'], a['x']
        b = bytearray(m)
        if k <= 1 and m:
            b[x % len(b)] ^= 1 << (x % 8)
        elif k == 2:
            b = b[:x % max(1, len(b))]
        elif k == 3:
            b += bytes(1 + x % 20)
        elif k == 4:
            b = bytearray((x * 7 + i) & 255 for i in range(len(b)))
        else:
            b = bytearray()
        return bytes(b)

    def setup(self):
        R, r = self.R, self.w.rng
        key = lambda: bytes(r.randrange(256) for _ in range(32))
        self.isk, self.rsk = key(), key()
        ipk, rpk = NX.pubkey(self.isk), NX.pubkey(self.rsk)
        auth = [(NX.pubkey(key()), b'other%d' % j) for j in range(self.p.get('others%d' % self.c))]
        if self.fault('unknown'):
            R.fire('unknown')
            self.known = False
        else:
            auth.insert(r.randrange(len(auth) + 1), (ipk, b'initiator'))
        to = rpk
        if self.fault('wrongkey'):
            R.fire('wrongkey')
            to = NX.pubkey(key())
        dst = [b'sim', b'sim']
        if self.fault('dst'):
            R.fire('dst')
            dst[1] = b'sin'
        self.ipk, self.rpk, self.low = ipk, rpk, self.p.get('low%d' % self.c)
        if self.low:
            self.idev = NX.create_device(dst[0], b'initiator', self.isk)
            self.rdev = NX.create_device(dst[1], b'responder', self.rsk)
            for pk, name in auth:
                NX.add_peer(self.rdev, name, pk)
            if self.fault('badpeer'):
                R.fire('badpeer')
                s, e = self.attempt(NX.create_session_initiator, self.idev, 77)
                if e is None:
                    R.viol('M04.badpeer', 'a session with a party that is not registered is created')
                    return
            pid = NX.get_peerid(NX.add_peer(self.idev, b'responder', to))
            self.a, e = self.attempt(NX.create_session_initiator, self.idev, pid)
            m1, e = self.attempt(NX.initiator_1st_msg, self.a)
        else:
            plain = self.p.get('plain%d' % self.c) and dst[0] == dst[1]       # with the default names
            res, e = self.attempt(lambda: NX.initiator_session(self.isk, to) if plain else NX.initiator_session(self.isk, to, b'initiator', b'responder', dst[0]))
            if e is None:
                self.a, m1 = res
        if e:
            R.viol('M04.setup', 'starting a channel fails with %s' % e)
            return
        good = to == rpk and dst[0] == dst[1]
        sent = m1
        if self.low and self.fault('misuse'):
            # what is neither protected nor authenticated yet must not be sent or accepted as a message
            R.fire('misuse')
            s, _ = self.attempt(NX.create_session_initiator, self.idev, pid)
            c, e = self.attempt(NX.send_msg, s, b'a secret for later')
            if e is None:
                R.viol('M04.early', 'a message is sent before anything is known about the receiver')
            s2, _ = self.attempt(NX.create_session_responder, self.rdev)
            s3, _ = self.attempt(NX.create_session_initiator, self.idev, pid)
            s4, _ = self.attempt(NX.create_session_responder, self.rdev)
            c, e = self.attempt(NX.initiator_1st_msg, s4)
            if e is None:
                R.viol('M04.early', 'a responder opens the channel')
            m = loaded_opening(s3, b'who sent this?')
            c, e = self.attempt(NX.read_msg, s2, m)
            if e is None:
                R.viol('M04.early', 'the opening message is accepted as a message of an authenticated sender')
            self.spare += [s, s2, s3, s4]
        for a in self.fault('hs'):
            if a['m'] == 0:
                m1 = self.alter(m1, a)
                R.fire('hs')
        good = good and m1 == sent
        if self.low:
            self.b, _ = self.attempt(NX.create_session_responder, self.rdev)
            m2, e = self.attempt(NX.responder_1st_msg, self.b, m1)
        else:
            res, e = self.attempt(lambda: NX.responder_session(self.rsk, auth, m1) if plain else NX.responder_session(self.rsk, auth, m1, dst[1], b'responder'))
            if e is None:
                self.b, m2 = res
        R.act(self.c, 'hs1', e)
        if good != (e is None):
            R.viol('M04.setup', 'first message of a channel %s, although it was %s' % ('refused' if e else 'accepted', 'sent as it is' if good else 'not meant for this responder or altered'))
        if e:
            self.failed = True
            return
        sent = m2
        for a in self.fault('hs'):
            if a['m'] == 1:
                m2 = self.alter(m2, a)
                R.fire('hs')
        good = good and m2 == sent
        _, e = self.attempt(NX.initiator_session_complete, self.a, m2)
        R.act(self.c, 'hs2', e)
        if good != (e is None):
            R.viol('M04.setup', 'answer to the first message %s, although it was %s' % ('refused' if e else 'accepted', 'sent as it is' if good else 'altered'))
        if e:
            self.failed = True
            return
        self.up = True
        for a in self.fault('early'):
            R.fire('early')
            c, e = self.attempt(NX.send_msg, self.b, b'too early')
            self.loose = True       # a write out of turn may end the session
            if e is None:
                R.viol('M04.early', 'the responder sends before it knows with whom it talks')

    def talk(self):
        """one message in a random direction, with everything that may happen to it"""
        R, r = self.R, self.w.rng
        if not self.up:
            return
        d = r.randrange(2)
        if self.got[0] == 0:
            d = 0
            if self.loose:
                return
        src, dstn = (self.a, self.b) if d == 0 else (self.b, self.a)
        if self.got[0] == 0 and self.sent[0]:
            pass        # what was sent before has not arrived yet
        body = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 15, 16, 64, 65, 300])))
        msg = body
        if r.random() < .2:
            msg = r.choice(['', 'hello', 'gr\u00fc\u00dfe \U0001f511', '\0x'])
            body = msg.encode('utf8')
        held = seam.pyseam_live()
        ct, e = self.attempt(NX.send_msg, src, msg)
        if self.got[0] > 0 and seam.pyseam_live() > held:
            R.viol('M04.release', 'sending a message on an established channel leaves memory behind')
        if e:
            R.viol('M04.send', 'sending on an established channel fails with %s' % e)
            return
        if not isinstance(ct, bytes) or (len(body) > 8 and body in ct):
            R.viol('M04.clear', 'a message appears in clear in what is sent')
        num = len(self.sent[d])
        self.sent[d].append((ct, body))
        R.h(self.c, d, ct)
        total = sum(len(x) for x in self.sent.values()) - 1
        seq = [ct]
        for a in self.fault('alter'):
            if a['m'] == total and self.alter(ct, a) != ct:
                R.fire('alter')
                seq.insert(0, self.alter(ct, a))
        for a in self.fault('reflect'):
            if a['m'] == total:
                R.fire('reflect')
                self.deliver(1 - d, ct)
        for a in self.fault('cross'):
            o = [x.sent[z][-1][0] for x in self.w.ch if x is not self for z in (0, 1) if x.sent[z]]
            if a['m'] == total and o:
                R.fire('cross')
                seq.insert(0, o[a['x'] % len(o)])
        for a in self.fault('dup'):
            if a['m'] == total:
                R.fire('dup')
                seq.append(ct)
        for a in self.fault('swap'):
            if a['m'] == total and self.got[0] > 0:
                R.fire('swap')
                c2, e = self.attempt(NX.send_msg, src, b'second')
                if e is None:
                    self.sent[d].append((c2, b'second'))
                    seq = [c2] + seq + [c2]
        for a in self.fault('drop'):
            if a['m'] == total and seq == [ct]:
                R.fire('drop')
                seq = []
        for m in seq:
            self.deliver(d, m)

    def deliver(self, d, m):
        R = self.R
        dst = self.b if d == 0 else self.a
        k = self.got[d]
        want = self.sent[d][k][1] if k < len(self.sent[d]) and self.sent[d][k][0] == m else None
        if d == 0 and k == 0 and not self.known:
            want = None
        first = d == 0 and k == 0
        held = seam.pyseam_live()
        pt, e = self.attempt(NX.read_msg, dst, m)
        if self.got[0] > 0 and seam.pyseam_live() > held:
            R.viol('M04.release', 'a message on an established channel leaves memory behind at its receiver')
        R.act(self.c, d, k, e)
        R.h(self.c, d, pt, e)
        R.state(self.c, d, k, e is None, self.loose)
        if e is None and (want is None or pt != want):
            R.viol('M04.accepted', 'message %d of a channel: %s' % (k + 1, 'accepted although altered, repeated, out of order or from an unknown party' if want is None else 'delivered with other contents'))
        if e is not None and want is not None and not self.loose:
            R.viol('M04.refused', 'message %d of a channel refused although it arrived as sent and in order' % (k + 1))
        if e is None:
            self.got[d] += 1
            R.hit('delivered')
            if first and self.low:
                for s, dev, pk in ((self.b, self.rdev, self.ipk), (self.a, self.idev, self.rpk)):
                    got, e = self.attempt(NX.get_pubkey, s, dev)
                    if got != pk:
                        R.viol('M04.identity', 'an end of the channel reports another key than its partner\'s')
        else:
            R.hit('refused')
            if first:
                self.loose = True

    def finish(self):
        """what is still under way arrives"""
        if not self.up or self.loose or not self.known:
            return
        for d in (0, 1):
            while self.got[d] < len(self.sent[d]):
                k = self.got[d]
                self.deliver(d, self.sent[d][k][0])
                if self.got[d] == k:
                    return


class ChanWorld:
    def use(self, c):
        actor(c, 0)


def exec_chan(p, R):
    w = ChanWorld()
    w.p, w.R, w.k = p, R, min(8, max(1, p.get('channels', 1)))
    w.rng = random.Random(p.get('seed'))
    for c in range(w.k):
        seam.pyseam_seed(c, p.get('seed') * 31 + c)
    w.ch = [Chan(w, c) for c in range(w.k)]
    held = seam.pyseam_live()
    for c in w.ch:
        c.setup()
    order = [c for c in w.ch for _ in range(p.get('msgs', 2))]
    w.rng.shuffle(order)
    for c in order:
        c.talk()
    for c in w.ch:
        c.finish()
        clean = not [1 for k, a in p.f if a['ch'] % w.k == c.c and k in ('unknown', 'wrongkey', 'dst', 'hs')]
        if clean and not c.up:
            R.viol('M04.setup', 'an undisturbed channel is not established')
    if all(c.low for c in w.ch):
        # the bindings have no way to end sessions and devices, so this is done directly
        for c in w.ch:
            for s in [c.a, c.b] + c.spare:
                if s:
                    seam.Noise_XK_session_free(ctypes.c_void_p(s))
            for d in (c.idev, c.rdev):
                if d:
                    seam.Noise_XK_device_free(ctypes.c_void_p(d))
        if not set(R.fired) & {'early', 'misuse', 'badpeer'} and seam.pyseam_live() > held:
            R.viol('M04.release', '%d pieces of memory are left after all sessions and devices were freed' % (seam.pyseam_live() - held))
        R.hit('all_freed')
    R.sim_ms = 1
    R.nontrivial = sum(R.fired.values()) > 0 or w.k > 1


# ------------------------------- evaluation, sharing, bare key generation (M05)

L = 2 ** 252 + 27742317777372353535851937790883648493


def num(b):
    return int.from_bytes(b, 'little')


def enc(v):
    return (v % L).to_bytes(32, 'little')


def lagrange(i, ix, x=0):
    a = b = 1
    for j in ix:
        if j != i:
            a, b = a * (j - x) % L, b * (j - i) % L
    return a * pow(b, -1, L) % L


def interpolate(sh, x=0):
    """value at x of the polynomial through the shares"""
    ix = [s[0] for s in sh]
    return sum(num(s[1:]) * lagrange(s[0], ix, x) for s in sh) % L


def point_ok(b):
    return len(b) == 32 and any(b) and b[31] < 128 and pysodium.crypto_core_ristretto255_is_valid_point(b)


def times(k, pt):
    return pysodium.crypto_scalarmult_ristretto255(enc(k), pt)


def gen_svc(r, check, thorough):
    p = Plan(check)
    n = r.choice([2, 3, 3, 4, 5, 7, 12]) if r.random() < .97 else r.choice([40, 128, 254, 255])
    t = r.randint(2, min(n, 9))
    p.p.update(n=n, t=t, seed=r.randrange(1 << 40), churn=int(r.random() < .5), reqs=r.randint(1, 1 if n > 20 else 4), dkg=int(n < 20 and r.random() < .5))
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        k = r.choice(['drop', 'ask', 'answer', 'answer', 'session', 'session', 'len', 'len', 'type', 'range', 'long'] + (['share', 'share', 'commit', 'commit'] if p.p['dkg'] else []))
        if k == 'drop':
            p.add(k, req=r.randrange(4), srv=r.randint(1, n))
        elif k in ('ask', 'answer', 'session'):
            p.add(k, req=r.randrange(4), srv=r.randint(1, n), kind=r.randrange(6), x=r.randrange(100000))
        elif k in ('len', 'type', 'range'):
            p.add(k, call=r.randrange(23), x=r.randrange(8))
        elif k == 'long':
            p.add(k, req=r.randrange(4), x=r.choice([255, 256, 257, 300, 511, 512, 65535, 65536, 65800]))
        else:
            p.add(k, dealer=r.randint(1, n), to=r.randint(1, n), x=r.randrange(100000))
    return p


class Svc:
    def __init__(self, p, R):
        self.p, self.R = p, R
        self.n = min(255, max(2, p.get('n', 3)))
        self.t = min(self.n, max(2, p.get('t', 2)))
        self.rng = random.Random(p.get('seed'))
        for a in range(20):
            seam.pyseam_seed(a, p.get('seed') * 53 + a)

    def use(self, a):
        actor(a % 20, 0)
        if self.p.get('churn'):
            gc.collect()
            self.junk = [ctypes.create_string_buffer(b'\xee' * self.rng.choice([32, 33, 64, 66, 99, 165])) for _ in range(12)]

    def call(self, what, f, *a):
        """(result, None) or (None, error); every error must be a ValueError"""
        try:
            return f(*a), None
        except ValueError as e:
            self.R.hit('errors')
            return None, str(e) or 'error'
        except Exception as e:
            self.R.viol('M05.error', '%s ends with %s: %s' % (what, type(e).__name__, str(e)[:100]))
            return None, type(e).__name__

    def good(self, what, f, *a):
        r, e = self.call(what, f, *a)
        if e:
            self.R.viol('M05.refused', '%s refuses proper arguments: %s' % (what, e))
            raise Over()
        self.R.h(what, r)
        return r

    def shares_ok(self, what, sh, secret):
        n, t = self.n, self.t
        if len(sh) != n or any(not isinstance(s, bytes) or len(s) != 33 or s[0] != i + 1 for i, s in enumerate(sh)):
            self.R.viol('M05.shares', '%s: not %d labelled shares' % (what, n))
            raise Over()
        for _ in range(2):
            q = self.rng.sample(list(sh), t)
            if interpolate(q) != secret:
                self.R.viol('M05.shares', '%s: shares %s (threshold %d of %d) do not belong to the secret' % (what, [s[0] for s in q], t, n))
                raise Over()
        o = self.rng.choice(list(sh))
        if t < n and interpolate(q, o[0]) != num(o[1:]):
            self.R.viol('M05.shares', '%s: shares do not lie on one polynomial' % what)
            raise Over()

    def dealt(self):
        self.use(0)
        k = self.good('keygen', O.keygen)
        if len(k) != 32 or num(k) >= L or not any(k):
            self.R.viol('M05.key', 'generated key is not a usable scalar')
            raise Over()
        sh = self.good('create_shares', O.create_shares, k, self.n, self.t)
        self.shares_ok('create_shares', sh, num(k))
        return num(k), list(sh)

    def generated(self):
        """bare key generation; every party verifies, rejected dealers are dropped by all"""
        n, t, R = self.n, self.t, self.R
        com, out = [], []
        for i in range(n):
            self.use(i)
            c, s = self.good('dkg_start', O.dkg_start, n, t)
            self.shares_ok('dkg_start', s, interpolate(s[:t]))
            if len(c) != 32 * t or c[:32] != pysodium.crypto_scalarmult_ristretto255_base(enc(interpolate(s[:t]))):
                R.viol('M05.commit', 'dealer does not commit to its secret')
                raise Over()
            com.append(c)
            out.append(list(s))
        got = [[out[d][j] for d in range(n)] for j in range(n)]
        seen = [list(com) for _ in range(n)]
        touched = set()
        for a in self.p.of('share') + self.p.of('commit'):
            d, j, x = (a['dealer'] - 1) % n, (a['to'] - 1) % n, a['x']
            if d == j:
                continue
            if a in self.p.of('share'):
                b = bytearray(got[j][d])
                b[1 + x % 32] ^= 1 << (x // 32 % 8)
                got[j][d] = bytes(b)
                R.fire('share')
            else:
                b = bytearray(seen[j][d])
                b[x % len(b)] ^= 1 << (x // len(b) % 8)
                seen[j][d] = bytes(b)
                R.fire('commit')
            touched.add((j, d))
        bad = set()
        for j in range(n):
            self.use(j)
            want, either = set(), set()
            for d in range(n):
                if (j, d) in touched:
                    f = self.fits(seen[j][d], got[j][d], j + 1)
                    if f is None:
                        either.add(d + 1)
                    elif not f:
                        want.add(d + 1)
            r, e = self.call('dkg_verify_commitments', O.dkg_verify_commitments, n, t, j + 1, b''.join(seen[j]), got[j])
            R.h(j, r, e)
            if e or len(set(r)) != len(r) or set(r) - either != want:
                R.viol('M05.verify', 'party %d of %d: rejected dealers should be %s, result is %s' % (j + 1, n, sorted(want), e or sorted(r)))
                raise Over()
            if want:
                R.hit('rejected_dealers', len(want))
            bad |= want
        qual = [d for d in range(n) if d + 1 not in bad and not any((j, d) in touched for j in range(n))]
        if not qual:
            return None
        sh = []
        for j in range(n):
            self.use(j)
            mine = [got[j][d] if d in qual else bytes([j + 1]) + bytes(32) for d in range(n)]
            s = self.good('dkg_finish', O.dkg_finish, n, mine, j + 1)
            sh.append(s)
        key = sum(interpolate(out[d][:t]) for d in qual) % L
        self.shares_ok('dkg_finish', sh, key)
        q = self.rng.sample(sh, self.rng.randint(t, n))
        if num(self.good('dkg_reconstruct', O.dkg_reconstruct, q)) != key:
            R.viol('M05.reconstruct', 'parties %s (threshold %d) do not reconstruct the key' % ([s[0] for s in q], t))
            raise Over()
        return key, sh

    def fits(self, c, s, j):
        """reference for the verification of one dealing"""
        pts = [c[32 * k:32 * k + 32] for k in range(self.t)]
        # the highest bit of an element is ignored or refused, depending on the version of libsodium
        odd = any(x[31] & 128 for x in pts)
        pts = [x[:31] + bytes([x[31] & 127]) for x in pts]
        if s[32] & 128 or not all(point_ok(x) for x in pts):
            return False
        acc = None
        for k, x in enumerate(pts):
            y = times(pow(j, k, L), x)
            acc = y if acc is None else pysodium.crypto_core_ristretto255_add(acc, y)
        v = num(s[1:]) % L
        if v == 0 or pysodium.crypto_scalarmult_ristretto255_base(enc(v)) != acc:
            return False
        return None if odd else True

    def spoil(self, b, a):
        """another element, or something that is none"""
        k, x = a['kind'], a['x']
        if k == 0:
            return bytes(32)
        if k == 1:
            return b[:31] + bytes([b[31] | 128])
        if k == 2:
            return b'\xff' * 31 + b'\x7f'
        if k == 3:
            return bytes([b[0] | 1]) + b[1:]     # negative
        if k == 4:
            z = bytearray(b)
            z[x % 32] ^= 1 << (x // 32 % 8)
            return bytes(z)
        return pysodium.crypto_scalarmult_ristretto255_base(enc(x + 5))

    def session(self, b, a):
        """the identifier of another sub-session, much like this one"""
        k, x = a['kind'], a['x']
        if k < 2 and len(b) + 3 > 65535:  # longer ones are refused
            k = 4
        if k == 0 or not b:
            return b + bytes(1 + x % 3)
        if k == 1:
            return bytes(1 + x % 3) + b
        if k == 2:
            return b[:-1]
        if k == 3:
            return b[:-1] + bytes([b[-1] ^ 1 << x % 8])
        i = x % len(b)
        return b[:i] + bytes([b[i] ^ 1 << (x // 8 % 8)]) + b[i + 1:]

    def request(self, q, key, sh, zs):
        n, t, R, p, r = self.n, self.t, self.R, self.p, self.rng
        mode = r.randrange(3)
        x = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 8, 31, 255])))
        for a in p.of('long'):
            if a['req'] == q:
                x = bytes(r.randrange(256) for _ in range(a['x']))
                R.fire('long')
        self.use(19)
        rb, e = self.call('blind', O.blind, x)
        if e:
            if len(x) <= 255:
                R.viol('M05.refused', 'blind refuses an input of %d bytes: %s' % (len(x), e))
            pt = pysodium.crypto_scalarmult_ristretto255_base(enc(key))
            if len(x) < 1 << 16 and self.good('finalize', O.finalize, x, pt) != hashlib.sha512(struct.pack('>H', len(x)) + x + b'\0\x20' + pt + b'Finalize').digest():
                R.viol('M05.output', 'output for an input of %d bytes is wrong' % len(x))
            return
        if not isinstance(rb, tuple) or len(rb) != 2 or rb[1] != self.h2g(x, rb[0]):
            R.viol('M05.blind', 'blinding an input of %d bytes does not hide that input' % len(x))
            raise Over()
        blind, alpha = rb
        R.h(alpha)
        quorum = r.sample(range(1, n + 1), r.randint(t, n))
        ssid = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 16, 300] if r.random() < .95 else [32768, 65535])))
        got = []
        ids = []
        clean = True
        for s in quorum:
            self.use(s)
            ask = alpha
            sid = ssid
            for a in p.of('session'):
                if mode == 2 and a['req'] == q and a['srv'] == s:
                    sid = self.session(sid, a)
                    R.fire('session')
            for a in p.of('ask'):
                if a['req'] == q and a['srv'] == s:
                    z = self.spoil(ask, a)
                    if z != ask:
                        ask = z
                        R.fire('ask')
            f = [lambda: (bytes([s]) + O.evaluate(sh[s - 1][1:], ask)), lambda: O.threshold_evaluate(sh[s - 1], ask, s, quorum), lambda: O._3hashtdh(sh[s - 1], zs[s - 1], ask, sid)][mode]
            a_, e = self.call('evaluation', f)
            R.act(q, s, mode, e is None)
            if point_ok(ask) != (e is None):
                R.viol('M05.element', 'evaluation of %s element: %s' % ('a valid' if point_ok(ask) else 'an invalid', e or 'accepted'))
                raise Over()
            if e:
                clean = False
                continue
            if not isinstance(a_, bytes) or len(a_) != 33 or a_[0] != s:
                R.viol('M05.answer', 'answer of server %d is not labelled with its number' % s)
                raise Over()
            if mode < 2 and a_[1:] != times(num(sh[s - 1][1:]) * (lagrange(s, quorum) if mode else 1), ask):
                R.viol('M05.answer', 'answer of server %d is not its share of the evaluation' % s)
                raise Over()
            if ask != alpha:
                clean = False
            for a in p.of('answer'):
                if a['req'] == q and a['srv'] == s:
                    z = self.spoil(a_[1:], a)
                    if z != a_[1:]:
                        a_ = a_[:1] + z
                        clean = False
                        R.fire('answer')
            if any(a['req'] == q and a['srv'] == s for a in p.of('drop')) and (mode == 1 or len(quorum) > t):
                R.fire('drop')
                if mode == 1:
                    clean = False
                continue
            got.append(a_)
            ids.append(sid)
        r.shuffle(got)
        if len(got) < 2:
            return
        self.use(19)
        res, e = self.call('combination', O.threshold_combine if mode == 1 else O.thresholdmult, got)
        R.act('c', q, e is None)
        R.h(res)
        want_ok = all(point_ok(a[1:]) for a in got)
        if (e is None) != want_ok:
            R.viol('M05.element', 'combination of answers%s: %s' % ('' if want_ok else ' one of which is invalid', e or 'accepted'))
            raise Over()
        if e:
            return
        enough = mode == 1 or len(got) >= t
        right = times(key, alpha)
        if clean and enough and len(set(ids)) > 1:
            if res == right:
                R.viol('M05.session', 'answers of servers %s from different sub-sessions are combined to the evaluation' % [a[0] for a in got])
                raise Over()
            clean = False
        if clean and enough and res != right:
            R.viol('M05.result', 'answers of servers %s (threshold %d of %d) are combined to a wrong result' % ([a[0] for a in got], t, n))
            raise Over()
        if not clean or not enough:
            R.hit('disturbed_requests')
            return
        R.hit('right_requests')
        y = self.good('unblind_finalize', O.unblind_finalize, blind, res, x)
        nn = self.good('unblind', O.unblind, blind, res)
        hx = times(key, self.h2g(x))
        if nn != hx or y != hashlib.sha512(struct.pack('>H', len(x)) + x + b'\0\x20' + hx + b'Finalize').digest() or self.good('finalize', O.finalize, x, nn) != y:
            R.viol('M05.output', 'output for an input of %d bytes is not the one of the undivided key' % len(x))
            raise Over()
        for s in quorum[:3]:
            if len(quorum) >= 2 and num(self.good('coeff', O.coeff, s, quorum)) != lagrange(s, quorum):
                R.viol('M05.coeff', 'weight of server %d among %s is wrong' % (s, quorum[:20]))
                raise Over()

    def h2g(self, x, k=None):
        dst = b'HashToGroup-OPRFV1-\x00-ristretto255-SHA512'
        dst += bytes([len(dst)])
        b0 = hashlib.sha512(bytes(128) + x + b'\0\x40\0' + dst).digest()
        pt = pysodium.crypto_core_ristretto255_from_hash(hashlib.sha512(b0 + b'\1' + dst).digest())
        return pt if k is None else times(num(k), pt)

    def misuse(self, key, sh, zs):
        """arguments of wrong size, type or range are refused"""
        R, n, t = self.R, self.n, self.t
        pt = pysodium.crypto_scalarmult_ristretto255_base(enc(7))
        k = enc(key)
        parts = [bytes([i + 1]) + pt for i in range(2)]
        cm = pt * t * n
        calls = [('evaluate', O.evaluate, [k, pt], [0, 1]), ('unblind', O.unblind, [k, pt], [0, 1]), ('finalize', O.finalize, [b'x', pt], [1]),
                 ('create_shares', O.create_shares, [k, n, t], [0]), ('threshold_evaluate', O.threshold_evaluate, [sh[0], pt, 1, [1, 2]], [0, 1]),
                 ('_3hashtdh', O._3hashtdh, [sh[0], zs[0], pt, b's'], [0, 1, 2])]
        for a in self.p.of('len') + self.p.of('type'):
            name, f, args, pos = calls[a['call'] % len(calls)]
            args = list(args)
            i = pos[a['x'] % len(pos)]
            if a in self.p.of('len'):
                args[i] = [args[i][:-1], args[i] + b'\0', b'', args[i] * 2][a['x'] // 2 % 4]
            else:
                args[i] = [bytearray(args[i]), 'x' * len(args[i])][a['x'] // 4 % 2]
            r, e = self.call(name, f, *args)
            R.fire('len' if a in self.p.of('len') else 'type')
            R.h(name, e)
            if e is None:
                R.viol('M05.misuse', '%s accepts a %s of %d elements as argument %d' % (name, type(args[i]).__name__, len(args[i]), i))
        ranges = [('create_shares', lambda v: O.create_shares(k, v, 2), [0, 1, 256, 257, 300, 511, -1, 65538]),
                  ('create_shares', lambda v: O.create_shares(k, 5, v), [0, 1, 6, 256, 257, 258, -1, 1000]),
                  ('dkg_start', lambda v: O.dkg_start(v, 2), [0, 1, 256, 257, 300, 511, -1, 65538]),
                  ('dkg_start', lambda v: O.dkg_start(5, v), [0, 1, 6, 256, 257, 258, -1, 1000]),
                  ('threshold_evaluate', lambda v: O.threshold_evaluate(sh[0], pt, v, [1, 2]), [0, 256, 257, -1, 512, 1 << 16, -255, 1 << 32]),
                  ('threshold_evaluate', lambda v: O.threshold_evaluate(sh[0], pt, 1, [1, v]), [0, 256, 257, -1, 512, 1 << 16, -255, 1 << 32]),
                  ('coeff', lambda v: O.coeff(v, [1, 2]), [0, -1, -255, -2, 0, -1, -3, -256]),
                  ('dkg_verify_commitments', lambda v: O.dkg_verify_commitments(n, t, v, cm, sh), [0, n + 1, 256, -1, 300, 257, n + 256, 1 << 16]),
                  ('dkg_verify_commitments', lambda v: O.dkg_verify_commitments(n, t, 1, cm[:-v - 1], sh), list(range(8))),
                  ('dkg_verify_commitments', lambda v: O.dkg_verify_commitments(n, t, 1, cm, sh[:-1] + [sh[-1][:v]]), list(range(8))),
                  ('dkg_finish', lambda v: O.dkg_finish(n, sh, v), [0, n + 1, 256, -1, 300, 257, n + 256, 1 << 16]),
                  ('dkg_finish', lambda v: O.dkg_finish(n, sh[:-1] + [sh[-1][:v]], 1), list(range(8))),
                  ('_3hashtdh', lambda v: O._3hashtdh(sh[0], zs[0], pt, bytes(65536 + v)), list(range(8))),
                  ('thresholdmult', lambda v: O.thresholdmult([parts[0], parts[1][:32 - v]]), list(range(8))),
                  ('threshold_combine', lambda v: O.threshold_combine([parts[0] + bytes(1 + v), parts[1]]), list(range(8))),
                  ('threshold_combine', lambda v: O.threshold_combine([parts[0], parts[1] + bytes(1 + v)]), list(range(8))),
                  ('thresholdmult', lambda v: O.thresholdmult([parts[0], parts[1] + bytes(1 + v)]), list(range(8))),
                  ('thresholdmult', lambda v: O.thresholdmult(parts[:v]), [0, 1] * 4),
                  ('threshold_combine', lambda v: O.threshold_combine(parts[:v]), [0, 1] * 4),
                  ('coeff', lambda v: O.coeff(1, [1, 2][:v]), [0, 1] * 4),
                  ('dkg_verify_commitments', lambda v: O.dkg_verify_commitments(n, v, 1, pt * v * n, sh), [0, 1] * 4),
                  ('dkg_verify_commitments', lambda v: O.dkg_verify_commitments(n, n + v, 1, pt * (n + v) * n, sh), list(range(1, 9))),
                  ('finalize', lambda v: O.finalize(bytes(65536 + v), pt), list(range(8)))]
        for a in self.p.of('range'):
            name, f, vals = ranges[a['call'] % len(ranges)]
            v = vals[a['x'] % len(vals)]
            r, e = self.call(name, f, v)
            R.fire('range')
            R.h(name, v, e)
            if e is None:
                R.viol('M05.misuse', '%s accepts arguments out of range (%d)' % (name, v))


class Over(Exception):
    """a violation that ends the run"""


def exec_svc(p, R):
    s = Svc(p, R)
    try:
        key = None
        if p.get('dkg'):
            g = s.generated()
            if g:
                key, sh = g
        if key is None:
            key, sh = s.dealt()
        s.use(1)
        zs = list(s.good('create_shares', O.create_shares, bytes(32), s.n, s.t))
        s.shares_ok('create_shares', zs, 0)
        for q in range(min(6, max(1, p.get('reqs', 1)))):
            s.request(q, key, sh, zs)
        s.use(2)
        s.misuse(key, sh, zs)
    except Over:
        pass
    R.state(s.n, s.t, tuple(sorted(R.fired)), tuple(sorted(R.probe)))
    R.sim_ms = 1
    R.nontrivial = sum(R.fired.values()) > 0

CHECKS = {'M01': (gen_mux, exec_mux), 'M02': (gen_mux, exec_mux), 'M03': (gen_dkg, exec_dkg), 'M04': (gen_chan, exec_chan), 'M05': (gen_svc, exec_svc), 'M06': (gen_conn, exec_conn)}
MUX = None


# ------------------------------------------------------------------ driver

def run_seed(seed, check, i):
    return int.from_bytes(hashlib.blake2b(('%d/%s/%d' % (seed, check, i)).encode(), digest_size=8).digest(), 'little')


def make(check, seed, i, tier):
    p = CHECKS[check][0](random.Random(run_seed(seed, check, i)), check, tier == 'thorough')
    p.check = check
    return p


BUF = 1 << 21


def run_child(p, shm, errfile, limit):
    """one plan in its own process; abnormal ends become violations"""
    shm[:8] = bytes(8)
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            fd = os.open(errfile, os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o600)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            signal.alarm(limit)
            random.seed(1)
            R = Result()
            try:
                CHECKS[p.check][1](p, R)
            except (TypeError, ValueError, LookupError, ArithmeticError, struct.error) as e:
                # a result that cannot be worked with
                traceback.print_exc()
                R.viol(p.check + '.unusable', 'what the code returned cannot be used: %s' % type(e).__name__)
            except Exception:
                if not R.v:
                    raise
            o = R.text().encode()[:BUF - 16]
            shm[8:8 + len(o)] = o
            shm[:8] = struct.pack('<Q', len(o))
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            code = 3
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    n = struct.unpack('<Q', shm[:8])[0]
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and n:
        return shm[8:8 + n].decode()
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
        tag = 'hang'
    else:
        txt = open(errfile, errors='replace').read()
        s = txt.find('ERROR: AddressSanitizer: ')
        if s >= 0:
            tag = 'crash:asan:' + txt[s + 25:].split()[0].rstrip(':')
            m = txt.find('SUMMARY: ')
            line = txt[m:].split('\n')[0] if m >= 0 else ''
            if ' in ' in line:
                tag += ':' + line.rsplit(' in ', 1)[1].split()[0]
        elif 'runtime error: ' in txt:
            tag = 'crash:ubsan:' + '-'.join(txt.split('runtime error: ', 1)[1].split()[:2])
        elif os.WIFSIGNALED(st):
            tag = 'crash:signal%d' % os.WTERMSIG(st)
        elif os.WEXITSTATUS(st) == 3:
            sys.stderr.write('harness error: %s\n' % txt)
            os._exit(3)
        else:
            tag = 'crash:exit%d' % os.WEXITSTATUS(st)
    h = hashlib.blake2b(tag.encode(), digest_size=8).hexdigest()
    return 'hash %s\nilv 0\nsim_ms 0\nevents 0\nnontrivial 1\nviol %s process ended abnormally\n' % (h, tag)


def worker(check, seed, first, count, secs, tier, d, w, ctr, t0):
    shm = mmap.mmap(-1, BUF)
    known = os.environ.get('VERIF_KNOWN_TAGS', '').split(',')     # listed findings do not end the batch early
    pre = os.path.join(d, 'w%d' % w)
    hf, vf = open(pre + '.hashes', 'wb'), open(pre + '.viol', 'w')
    tot, fired, probe = {'runs': 0, 'nontrivial': 0, 'sim_ms': 0, 'events': 0}, {}, {}
    # every worker takes its own arithmetic sequence of run numbers
    i = first + w
    while i < first + count and time.monotonic() - t0 <= secs and ctr[0] < 40:
        o = run_child(make(check, seed, i, tier), shm, pre + '.err', 60)
        tot['runs'] += 1
        ilv = nt = 0
        for l in o.split('\n'):
            k, _, v = l.partition(' ')
            if k == 'hash':
                hf.write(struct.pack('<QQQQ', 1, int(v, 16), 4, i))
            elif k == 'ilv':
                ilv = int(v, 16)
            elif k == 'nontrivial':
                nt = int(v)
                tot[k] += nt
            elif k in ('sim_ms', 'events'):
                tot[k] += int(v)
            elif k in ('fired', 'probe'):
                a, b = v.split()
                t = fired if k == 'fired' else probe
                t[a] = t.get(a, 0) + int(b)
            elif k == 'viol':
                vf.write('%d %s\n' % (i, v))
                vf.flush()
            elif k == 'state':
                hf.write(struct.pack('<QQ', 3, int(v, 16)))
        hf.write(struct.pack('<QQ', 2 if nt else 5, ilv))
        if [1 for l in o.split('\n') if l.startswith('viol ') and l.split()[1] not in known]:
            ctr[0] = min(255, ctr[0] + 1)
        i += ctr.step
    hf.close()
    vf.close()
    with open(pre + '.stat', 'w') as f:
        for k, v in tot.items():
            f.write('%s %d\n' % (k, v))
        for k in sorted(fired):
            f.write('fired %s %d\n' % (k, fired[k]))
        for k in sorted(probe):
            f.write('probe %s %d\n' % (k, probe[k]))
    if os.path.exists(pre + '.err'):
        os.unlink(pre + '.err')


class Ctr(mmap.mmap):
    step = 1


def main(a):
    global MUX
    cmd = a[0]
    if cmd == 'list':
        print('\n'.join(sorted(CHECKS)))
        return 0
    if cmd == 'plan':
        sys.stdout.write(make(a[1], int(a[2]), int(a[3]), a[4]).text())
        return 0
    try:
        MUX = load_multiplexer()
        import_bindings()
    except Exception:
        traceback.print_exc()
        return 3
    gc.collect()
    gc.freeze()
    if cmd == 'run':
        shm = mmap.mmap(-1, BUF)
        for path in open(a[3]).read().split():
            o = run_child(Plan.parse(open(path).read()), shm, a[2], int(a[1]))
            sys.stdout.write('plan %s\n%send\n' % (path, o))
            sys.stdout.flush()
        return 0
    if cmd == 'batch':
        check, seed, first, count, workers, secs, tier, d = a[1], int(a[2]), int(a[3]), int(a[4]), int(a[5]), float(a[6]), a[7], a[8]
        ctr = Ctr(-1, 4096)
        ctr.step = workers
        t0 = time.monotonic()
        pids = []
        for w in range(workers):
            pid = os.fork()
            if pid == 0:
                try:
                    worker(check, seed, first, count, secs, tier, d, w, ctr, t0)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
                os._exit(0)
            pids.append(pid)
        bad = 0
        for pid in pids:
            _, st = os.waitpid(pid, 0)
            bad |= st != 0
        return 3 if bad else 0
    return 3


def import_bindings():
    global O, NX
    import pyoprf
    import pyoprf.noisexk
    O, NX = pyoprf, pyoprf.noisexk


if __name__ == '__main__':
    sys.exit(main(sys.argv[2:]))
