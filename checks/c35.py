"""C35: what runs behind a command port is reported whole and in order.
Oracle: the same graph run here, and a log handler beside the one that
sends; the listener is a server of this check on the loopback network."""
import contextlib
import json
import logging
import os
import pickle
import socket
import threading

from nxt.remote import nxt_socket
from nxt.remote.nxt_socket import COM_TYPE
from nxt.runtime import GraphError, ExitGraph
from pbt.main import Part
from pbt.nxtlib import need, eq, Stage, Discard, Violation, parts
from pbt import ondisk, runlog
from checks import c24

PROPERTY = 'C35'
RULE = ('a case is non-trivial when nodes recorded something in two runs, or '
        'in one after the connection or the graph had changed')


class Listener(object):
    """The other end: takes messages, answers those that wait."""

    def __init__(self, lose_after=None):
        self.srv = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.srv.bind(('localhost', 0))
        self.srv.listen(1)
        self.port = self.srv.getsockname()[1]
        self.msgs = []
        self.error = None
        self.lose_after = lose_after
        self.conn = None
        self.thread = threading.Thread(target=self.serve)
        self.thread.daemon = True
        self.thread.start()

    def exactly(self, n):
        out = b''
        while len(out) < n:
            # what is sent next does not wait for a delayed answer
            self.conn.setsockopt(socket.IPPROTO_TCP, 12, 1)
            part = self.conn.recv(n - len(out))
            if not part:
                return None if not out else out
            out += part
        return out

    def serve(self):
        try:
            self.conn, _ = self.srv.accept()
            while True:
                head = self.exactly(nxt_socket.HEADER_SIZE)
                if head is None:
                    break
                body = self.exactly(int(head.decode()))
                msg = pickle.loads(body)
                self.msgs.append(msg)
                if COM_TYPE.WAIT in msg:
                    self.conn.sendall(b'ok')
                if self.lose_after is not None and \
                        len(self.msgs) >= self.lose_after:
                    # rudely, what is sent from now on fails
                    self.conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                                         b'\1\0\0\0\0\0\0\0')
                    break
        except Exception as e:
            self.error = repr(e)
        finally:
            if self.conn:
                self.conn.close()
            self.srv.close()

    def done(self):
        self.thread.join(20)
        need(not self.thread.is_alive(), 'the connection is still open')


class Beside(logging.Handler):
    """Sees what the handler that sends sees."""

    def __init__(self):
        logging.Handler.__init__(self)
        self.seen = []

    def emit(self, record):
        self.seen.append([record.levelno, record.getMessage(),
                          getattr(record, 'links', None)])


@contextlib.contextmanager
def port(lose_after=None):
    log = logging.getLogger('nxt')
    was = logging.root.manager.disable
    level, handlers, prop = log.level, list(log.handlers), log.propagate
    old = nxt_socket.COM_PORT, nxt_socket.__nxt_server__
    srv = Listener(lose_after)
    nxt_socket.COM_PORT = srv.port
    nxt_socket.__nxt_server__ = None
    log.handlers[:] = [logging.NullHandler()]
    log.propagate = False
    beside = Beside()
    logging.disable(logging.NOTSET)
    try:
        yield srv, beside, log
    finally:
        logging.disable(was)
        s = nxt_socket.__nxt_server__
        if s:
            s.close()
        nxt_socket.COM_PORT, nxt_socket.__nxt_server__ = old
        log.handlers[:] = handlers
        log.level, log.propagate = level, prop
        if srv.conn is None:
            srv.srv.close()


LINES = ['text', 'a %s b', '100%', '', 'two\nlines', '{}', 'caf\u00e9 \u2713',
         'x' * 3000]


def say(d, log):
    text = d.choice(LINES) if d.draw(40) else 'y' * 140000
    lvl = d.choice([10, 16, 20, 25, 30, 40])
    kw = {'links': d.choice([['/a'], ['/b/c'], ['/a', '/b/c']])} if d.boolean(1, 3) else {}
    if '%s' in text:
        log.log(lvl, text, 'word')
    elif kw:
        log.info(text, **kw)
    else:
        log.log(lvl, text)


def outcome(fn):
    try:
        fn()
        return 'done'
    except GraphError:
        return 'error'
    except ExitGraph:
        return 'exit'


def check_port(d, lose=False):
    ls = c24.graph(d)
    base = ondisk.empty()
    top = c24.on_disk(d, ls, base)
    st = Stage.load_from_filepath(top)
    comp = st.build_stage()
    paths = sorted(p for p in comp.descendants() if p != '/')
    if not paths:
        raise Discard('empty')
    d.note(ls)
    cache = os.path.join(base, 'cache.nxt')
    given = os.path.join(base, 'given.json')
    with port(d.draw(40) if lose else None) as (srv, beside, log):
        log.setLevel(d.choice([1, 10, 20, 40]))
        m = nxt_socket.SocketClientModel(None)
        rt = last = None
        ran = 0
        want = []           # the messages that are not logs
        m.cache_filepath = cache
        st = None
        changed = 0
        ops = d.many(2, 9, (5, 6))
        m.open()
        log.addHandler(beside)

        def bracket(inside=()):
            want.append({COM_TYPE.WAIT: True})
            want.extend(inside)
            want.append({COM_TYPE.WAIT: False})
        for i in ops:
            op = d.choice(['load', 'run', 'run', 'refresh', 'cache', 'log',
                           'ping', 'given', 'edit']) if st else 'load'
            d.note(op)
            runlog.take()
            if op in ('load', 'refresh'):
                m.load(top) if op == 'load' else m.refresh()
                bracket([{COM_TYPE.WAIT: True}, {COM_TYPE.WAIT: False}])
                st = Stage.load_from_filepath(top)
                rt = st.setup_runtime_layer(st.build_stage())
            elif op == 'edit':      # the file changes; told by a refresh
                data = json.loads(c24.fg.read(top))
                p = d.choice(paths)
                data['nodes'].setdefault(p, {}).setdefault('attrs', {})['y'] = {
                    'value': d.choice(['1', 'new'])}
                c24.fg.write(top, data)
                changed += 1
            elif op == 'given':
                m.param_filepath = d.choice([given, None, given + 'x'])
                with open(given, 'w') as fp:
                    json.dump(c24.params(d, paths), fp)
            elif op == 'run':
                order = [d.choice(paths) for _ in
                         d.many(0 if m.exec_order else 1, 4)]
                d.note(order)
                pars = {}
                if m.param_filepath == given:
                    with open(given) as fp:
                        pars = json.load(fp)
                got = outcome(lambda: m.run(order))
                rec = runlog.take()
                todo = order or last      # as in the last run
                last = todo
                keep = [rt]

                def here():
                    keep[0] = st.execute_nodes(todo, rt, parameters=pars)
                want_end = outcome(here)
                eq(rec, runlog.take(), 'what the nodes recorded')
                eq(got, {'error': 'done'}.get(want_end, want_end), 'ended')
                rt = keep[0]
                bracket([{COM_TYPE.ERR: None}] if want_end == 'error' else ())
                d.label(want_end)
                ran += bool(rec)
            elif op == 'cache':
                if getattr(m.runtime_layer, 'cache_layer', None) is None:
                    continue
                data = m.get_cache()
                bracket([{COM_TYPE.CACHE: json.loads(json.dumps(data))}])
                eq(json.loads(c24.fg.read(cache)),
                   json.loads(json.dumps(data)), 'record of the run in the '
                   'file and as it is sent')
                eq(c24.values(m.runtime_layer.cache_layer),
                   c24.values(rt.cache_layer), 'record of the run')
            elif op == 'log':
                say(d, log)
            else:
                m.ping()
                bracket([{COM_TYPE.PING: ''}])
        log.removeHandler(beside)
        bye = d.boolean()
        d.note('close, told: {}'.format(bye))
        m.close(bye)
        need(not any(isinstance(h, nxt_socket.NXTSocketLogHandler)
                     for h in log.handlers), 'still sending logs')
        srv.done()
        for _ in range(2):
            say(d, log)         # nobody is told
        one = nxt_socket.format_msg(1, COM_TYPE.CACHE)
        eq(nxt_socket.format_msg(None, COM_TYPE.ERR, one),
           {COM_TYPE.CACHE: 1, COM_TYPE.ERR: None}, 'two messages in one')
        if lose:
            d.interesting(ran > 0)
            return
        eq(srv.error, None, 'the listener failed')
        if bye:
            want.append({COM_TYPE.SHUTDOWN: None})
        for x in srv.msgs:
            eq(len(x), 1, 'kinds of message in one', x)
        got = [json.loads(json.dumps(x)) for x in srv.msgs
               if COM_TYPE.LOG not in x]
        eq(got, json.loads(json.dumps(want)), 'messages sent')
        logs = [x[COM_TYPE.LOG] for x in srv.msgs if COM_TYPE.LOG in x]
        eq(logs[len(logs) - len(beside.seen):], beside.seen, 'logs sent')
        need(len(logs) - len(beside.seen) <= 1, 'logs sent that nobody made')
        d.interesting(ran > 1 or (ran and changed))


def check_lost(d):
    check_port(d, True)


PARTS = [Part('port', check_port, 700, 12000, 'one connection'),
         Part('lost', check_lost, 400, 8000, 'connections that are lost')]
ASSUMPTIONS = []
