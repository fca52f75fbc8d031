"""C32: logs of sessions: kept while fresh, removed when stale, nothing else."""
import logging
import logging.handlers
import io
import os
import sys
import time

from pbt.main import Part
from pbt.nxtlib import need, eq
from pbt import ondisk
from nxt import nxt_log

PROPERTY = 'C32'
RULE = ('a case is non-trivial when a stale log was to be removed while files '
        'that look like it had to stay')
HOUR = 3600
AGES = [0, 1, 24, 47, 49, 72, 1000]
NAMES = ['a.log', 'b.log', 'a.log2', 'sub/a.log', 'note.txt', 'sub/graph.nxt',
         'c d.log', 'd', 'e.log', 'f.log']


def check_tracking(d):
    base = ondisk.empty('logs')
    user = os.path.join(base, 'user')
    os.makedirs(user)
    os.makedirs(os.path.join(base, 'sub'))
    meta = os.path.join(user, '.nxt_meta_log')
    old = nxt_log.USER_DIR
    nxt_log.USER_DIR = user
    try:
        files, listed = {}, set()
        for _ in d.many(1, 14, (9, 10)):
            op = d.weighted([(4, 'write'), (5, 'track'), (2, 'age'),
                             (1, 'vanish'), (1, 'folder'), (1, 'no list')])
            p = os.path.join(base, d.choice(NAMES))
            if op == 'write':
                if os.path.isdir(p):
                    continue
                with open(p, 'w') as fp:
                    fp.write('log')
                files[p] = d.choice(AGES)
                age(p, files[p])
            elif op == 'age' and p in files:
                files[p] = d.choice(AGES)
                age(p, files[p])
            elif op == 'vanish' and p in files:
                os.remove(p)
                del files[p]
            elif op == 'folder' and p not in files:
                if not os.path.isdir(p):
                    os.makedirs(p)
            elif op == 'no list':
                if os.path.isfile(meta):
                    os.remove(meta)
                listed = set()
            elif op == 'track':
                stale = {q for q in listed if files.get(q, 0) >= 48}
                if stale and len(files) > len(stale):
                    d.interesting()
                nxt_log.track_log_file(p)
                for q in stale:
                    del files[q]
                kept = {q for q in listed if q in files} | {p}
                with open(meta) as fp:
                    now = set(fp.read().splitlines())
                # what was just removed may stay on record once more
                eq(now - stale, kept - stale, 'logs on record')
                need(p in now, p, 'is not on record')
                listed = now
            d.note([op, p])
            have = {os.path.join(base, f) for f, v in
                    ondisk.picture(base).items() if v is not None}
            eq(sorted(have - {meta}), sorted(files), 'files after', op, p)
            for q in files:
                with open(q) as fp:
                    eq(fp.read(), 'log', 'content of', q)
    finally:
        nxt_log.USER_DIR = old


def age(p, hours):
    t = time.time() - hours * HOUR - 60
    os.utime(p, (t, t))


LEVELS = {'DEBUG': 10, 'SOCKET': 16, 'COMPOSITE': 17, 'EXECUTE': 18,
          'NODEOUT': 19, 'INFO': 20, 'WARNING': 30, 'GRAPH ERROR': 39,
          'ERROR': 40}


def check_messages(d):
    """Every log in use gets every message, in order, until it is stopped."""
    base = ondisk.empty('logs')
    user = os.path.join(base, 'user')
    os.makedirs(user)
    with open(os.path.join(user, '.nxt_meta_log'), 'w'):
        pass
    old = nxt_log.USER_DIR
    nxt_log.USER_DIR = user
    logger = logging.getLogger('nxt.some.part')
    was = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    want, using = {}, []
    root = logging.getLogger('nxt')
    level, floor = root.level, 10
    root.setLevel(floor)
    beside, told = Collect(), []
    root.addHandler(beside)
    try:
        for i in range(d.integer(3, 12)):
            k = d.draw(5)
            if k == 0 or not using:
                p = os.path.join(base, 'log{}.log'.format(i))
                again = sorted(set(want) - set(using))
                if again and d.boolean(1, 3):
                    p = d.choice(again)
                eq(nxt_log.make_session_log(p), p, 'name of the log')
                using.append(p)
                want.setdefault(p, [])
            elif k == 1:
                p = d.choice(using)
                nxt_log.stop_session_log(p)
                using.remove(p)
                d.interesting(len(want) > 1)
            else:
                text = d.choice(['hello', 'a b', '%s', '{}', '']) + str(i)
                kind, say = d.choice([
                    ('INFO', logger.info), ('ERROR', logger.error),
                    ('GRAPH ERROR', logger.grapherror),
                    ('NODEOUT', logger.nodeout),
                    ('EXECUTE', logger.execinfo),
                    ('COMPOSITE', logger.compinfo),
                    ('SOCKET', logger.socket), ('WARNING', logger.warning),
                    ('DEBUG', logger.debug)])
                links = d.choice([None, ['/a'], ['/a', '/b/c']])
                say(text, links=links) if links else say(text)
                if LEVELS[kind] >= floor:
                    told.append((logger.name, LEVELS[kind], kind, text,
                                 links))
                for p in using if LEVELS[kind] >= floor else ():
                    want[p].append('{}: {}'.format(kind, text))
                if d.draw(5) == 0:
                    floor = d.choice(sorted(LEVELS.values()))
                    root.setLevel(floor)
            d.note([k, list(using), floor])
        for p in want:
            with open(p) as fp:
                got = [ln for ln in fp.read().splitlines()
                       if 'logging to ' not in ln and 'tracking' not in ln
                       and 'stale log' not in ln]
            eq(got, want[p], 'messages in', p)
        eq([x for x in beside.got if x[0] == logger.name], told,
           'messages and what they link to')
    finally:
        for p in using:
            nxt_log.stop_session_log(p)
        root.setLevel(level)
        root.removeHandler(beside)
        logging.disable(was)
        nxt_log.USER_DIR = old


class Wire(object):
    """A connection which hands over what was sent in arbitrary pieces."""

    def __init__(self, d, data):
        self.d, self.data, self.ended = d, data, 0

    def recv(self, size):
        if not self.data:
            self.ended += 1
            need(self.ended < 50, 'still receiving after the end')
            return b''
        n = self.d.weighted([(3, size), (1, 1), (1, 2), (1, 3),
                             (1, size // 2 + 1)])
        n = max(1, min(n, size))
        out, self.data = self.data[:n], self.data[n:]
        return out


class Collect(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.got = []

    def emit(self, record):
        self.got.append((record.name, record.levelno, record.levelname,
                         record.getMessage(), getattr(record, 'links', None)))


def check_wire(d):
    """Records sent by another process arrive once, in order, unchanged."""
    pack = logging.handlers.SocketHandler('localhost', 9)
    want, data, ends = [], b'', []
    for _ in d.many(0, 6, (4, 5)):
        name = d.choice(['nxt', 'nxt.stage', 'nxt.a.b'])
        level, text = d.choice([
            (20, 'INFO'), (40, 'ERROR'), (nxt_log.GRAPHERROR, 'GRAPH ERROR'),
            (nxt_log.NODEOUT, 'NODEOUT'), (nxt_log.EXECINFO, 'EXECUTE'),
            (nxt_log.COMPINFO, 'COMPOSITE'), (10, 'DEBUG')])
        msg, args = d.choice([('hello', ()), ('%s and %s', ('a', 'b')),
                              ('x' * 300, ()), ('caf\u00e9', ()),
                              ('two\nlines', ()), ('', ()), ('100%', ())])
        record = logging.LogRecord(name, level, 'f.py', 1, msg, args, None)
        links = d.choice([None, ['/a'], ['/a', '/b/c']])
        if links:
            record.links = links
        data += pack.makePickle(record)
        want.append((name, level, 'remote.' + text, record.getMessage(),
                     links))
        ends.append(len(data))
    if data and d.draw(4) == 0:
        # the other process ends half way
        cut = d.draw(len(data))
        data, want = data[:cut], want[:sum(e <= cut for e in ends)]
    d.interesting(len(want) > 1)
    handler = object.__new__(nxt_log.LogRecordStreamHandler)
    handler.connection = Wire(d, data)
    handler.server = Server()
    got, part = Collect(), Collect()
    root, some = logging.getLogger('nxt'), logging.getLogger('nxt.a.b')
    was = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    root.addHandler(got)
    some.addHandler(part)
    try:
        handler.handle()
    finally:
        root.removeHandler(got)
        some.removeHandler(part)
        logging.disable(was)
    eq(got.got, want, 'records received')
    eq(part.got, [w for w in want if w[0] == 'nxt.a.b'],
       'records received for one part')


class Server(object):
    logname = None


def check_verbose(d):
    """What is printed follows the verbosity that was asked for last."""
    root, logger = logging.getLogger('nxt'), logging.getLogger('nxt.part')
    was = logging.root.manager.disable
    kept = (list(root.handlers), root.level, sys.stderr,
            getattr(nxt_log, 'verbose_handler', None))
    out = io.StringIO()
    want, asked = [], 0
    root.handlers[:] = [logging.NullHandler()]
    root.setLevel(10)
    nxt_log.verbose_handler = None
    sys.stderr = out
    logging.disable(logging.NOTSET)
    try:
        for i in range(d.integer(2, 10)):
            if d.draw(3) == 0:
                asked = d.choice([0, 1, 2])
                nxt_log.set_verbosity(d.choice([asked, str(asked)]))
                d.note(asked)
            else:
                kind = d.choice(sorted(LEVELS))
                text = d.choice(['hello', 'a b', '{}']) + str(i)
                {'GRAPH ERROR': logger.grapherror, 'EXECUTE': logger.execinfo,
                 'COMPOSITE': logger.compinfo}.get(
                    kind, getattr(logger, kind.lower(), None))(text)
                d.note(kind)
                if asked == 2 or asked == 1 and LEVELS[kind] >= 18:
                    want.append('{}: {}'.format(kind, text))
                d.interesting(asked > 0 and len(want) > 1)
    finally:
        logging.disable(was)
        (root.handlers[:], root.level, sys.stderr,
         nxt_log.verbose_handler) = kept
    eq(out.getvalue().splitlines(), want, 'printed')


PARTS = [Part('tracking', check_tracking, 1500, 20000,
              'histories of logs recorded, ageing and vanishing among other '
              'files'),
         Part('messages', check_messages, 400, 4000,
              'messages to logs that start and stop'),
         Part('verbose', check_verbose, 1500, 20000,
              'messages while the verbosity changes'),
         Part('wire', check_wire, 3000, 40000,
              'records of other processes, received in pieces')]
