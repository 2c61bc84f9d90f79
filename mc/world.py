"""A stand-in for MPI: one thread per rank, run one at a time; every order in which messages can arrive is a choice."""
import pickle
import threading
import traceback
import numpy as np


class Chooser(object):
    def __init__(self, path):
        self.path, self.taken = path, []

    def __call__(self, n):
        i = len(self.taken)
        c = self.path[i] if i < len(self.path) else 0
        self.taken.append((min(c, n - 1), n))
        return min(c, n - 1)


def following(taken):
    t = list(taken)
    while t:
        c, n = t.pop()
        if c + 1 < n:
            return [x for x, _ in t] + [c + 1]
    return None


class World(object):
    """all ranks run one at a time, until each waits; then what can happen next is decided"""
    def __init__(self, size, choose, rendezvous):
        self.size, self.choose, self.rendezvous = size, choose, rendezvous
        self.lock = threading.Condition()
        self.turn = None
        self.ranks = {}
        self.wait = {}          # rank -> what it waits for
        self.answer = {}
        self.messages = {}      # dest -> list of (source, tag, object, sent token)
        self.done = set()
        self.dead = False
        self.collected = {}

    def run(self, fun):
        def body(rank):
            with self.lock:
                while self.turn != rank:
                    self.lock.wait()
            try:
                if not self.dead:
                    self.ranks[rank] = ('ok', fun(rank))
            except Stop:
                self.ranks[rank] = ('stopped', None)
            except Exception:
                self.ranks[rank] = ('error', traceback.format_exc())
            with self.lock:
                self.done.add(rank)
                self.turn = 'main'
                self.lock.notify_all()
        ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
        for t in ts:
            t.start()
        for r in range(self.size):
            self.switch(r)
        stuck = False
        while len(self.done) < self.size:
            nxt = self.resolve() if not self.dead else [r for r in range(self.size) if r not in self.done][:1]
            if not nxt:
                stuck = self.dead = True
                continue
            for r in nxt:
                self.switch(r)
        for t in ts:
            t.join()
        return not stuck

    def switch(self, rank):
        with self.lock:
            self.turn = rank
            self.lock.notify_all()
            while self.turn != 'main':
                self.lock.wait()

    def block(self, rank, what):
        """called by a rank"""
        with self.lock:
            self.wait[rank] = what
            self.turn = 'main'
            self.lock.notify_all()
            while self.turn != rank:
                self.lock.wait()
            if self.dead:
                raise Stop()
            self.wait.pop(rank)
            return self.answer.pop(rank, None)

    def resolve(self):
        """the ranks that can go on"""
        # collective operations
        for r, w in sorted(self.wait.items()):
            if w[0] == 'coll':
                _, comm, name, val, args = w
                members = comm.members
                if all(m in self.wait and self.wait[m][0] == 'coll' and self.wait[m][1].key == comm.key for m in members):
                    ws = [self.wait[m] for m in members]
                    if len(set(x[2] for x in ws)) > 1:
                        raise AssertionError('different collective operations: %s' % [x[2] for x in ws])
                    for m, a in zip(members, comm.combine(name, [x[3] for x in ws], args)):
                        self.answer[m] = a
                    return list(members)
        # messages
        anys = []
        for r, w in sorted(self.wait.items()):
            if w[0] == 'recv':
                ok = []
                for m in self.messages.get(r, []):
                    if (w[1] is None or m[0] == w[1]) and (w[2] is None or m[1] == w[2]) and m[0] not in [x[0] for x in ok]:
                        ok.append(m)
                if ok:
                    anys.append((r, ok))
        for r, ok in anys:
            if len(ok) == 1 and self.wait[r][1] is not None:
                return self.deliver(r, ok[0])
        for r, ok in anys:
            return self.deliver(r, ok[self.choose(len(ok)) if len(ok) > 1 else 0])
        return []

    def deliver(self, r, m):
        self.messages[r].remove(m)
        self.answer[r] = pickle.loads(m[2])
        out = [r]
        if m[0] in self.wait and self.wait[m[0]][0] == 'send' and self.wait[m[0]][1] is m[3]:
            out.append(m[0])
        return out


class Stop(BaseException):
    pass


class Comm(object):
    def __init__(self, world, members, me, key):
        self.world, self.members, self.me, self.key = world, members, me, key
        self.rank, self.size = members.index(me), len(members)
        self.splits = 0

    def send(self, obj, dest=0, tag=0):
        token = object()
        d = self.members[dest]
        self.world.messages.setdefault(d, []).append((self.me, tag, pickle.dumps(obj), token))
        if self.world.rendezvous:
            self.world.block(self.me, ('send', token))

    def recv(self, source=None, tag=None, status=None):
        return self.world.block(self.me, ('recv', None if source is None or source < 0 else self.members[source], tag if tag is None or tag >= 0 else None))

    def coll(self, name, val=None, *args):
        return self.world.block(self.me, ('coll', self, name, pickle.dumps(val), args))

    def combine(self, name, vals, args):
        vals = [pickle.loads(v) for v in vals]
        if name == 'allreduce':
            return [sum(vals)] * len(vals)
        if name in ('allgather', 'split'):
            return [list(vals) for v in vals]
        if name == 'gather':
            return [list(vals) if i == args[0] else None for i in range(len(vals))]
        if name == 'scatter':
            return list(vals[args[0]])
        if name == 'bcast':
            return [vals[args[0]]] * len(vals)
        return [None] * len(vals)

    def Split(self, color=0, key=0):
        cols = self.coll('split', color)
        self.splits += 1
        if color == FakeMPI.UNDEFINED:
            return FakeMPI.COMM_NULL
        return Comm(self.world, [m for m, c in zip(self.members, cols) if c == color], self.me, self.key + ((self.splits, color),))

    def Allreduce(self, sendbuf, recvbuf, op=None):
        recvbuf[...] = self.coll('allreduce', np.array(sendbuf))

    def allreduce(self, val, op=None):
        return self.coll('allreduce', val)

    def allgather(self, val):
        return self.coll('allgather', val)

    def gather(self, val, root=0):
        return self.coll('gather', val, root)

    def scatter(self, vals, root=0):
        return self.coll('scatter', vals, root)

    def bcast(self, val, root=0):
        return self.coll('bcast', val, root)

    def barrier(self):
        self.coll('barrier')

    Barrier = barrier


HERE = threading.local()


class FakeMPI(object):
    @property
    def COMM_WORLD(self):
        return HERE.comm

    SUM = 'sum'
    UNDEFINED = -32766
    COMM_NULL = 'null communicator'
    ANY_SOURCE = -1
    ANY_TAG = -1


FakeMPI = FakeMPI()
