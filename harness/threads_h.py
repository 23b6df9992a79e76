"""Threads: executes the operations of spec/Threads.tla, switching between threads exactly where the schedule says.

A schedule is a sequence of threads: each time, that thread goes on until its next cut (a number of lines of
the library, or of its parser generator, executed since its operation began), or until its operation ends."""
from __future__ import print_function
import os
import random
import sys
import threading

import arpeggio
import whatami
from whatami import parse_whatid
from whatami.parsers import WhatamiTreeVisitor
import lang
from common import dec, text, codes, outcome, as_text, as_what, env_of
from gen import Gen
import env_child
import plugins_h
from plugins_h import M

CASE_SECONDS = 60
ROOTS = (os.path.dirname(os.path.abspath(whatami.__file__)), os.path.dirname(os.path.abspath(arpeggio.__file__)))
WHERE = {}


def inside(filename):
    if filename not in WHERE:
        WHERE[filename] = filename.startswith(ROOTS)
    return WHERE[filename]


class Worker(threading.Thread):
    def __init__(self, program, shared, record):
        super(Worker, self).__init__()
        self.daemon = True
        self.program, self.shared, self.record = program, shared, record
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.lines, self.cut = 0, None
        self.over = False

    # The tracing: where the thread can be left

    def tracer(self, frame, event, arg):
        return self.line if inside(frame.f_code.co_filename) else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            if self.cut is not None and self.lines >= self.cut:
                self.pause()
        return self.line

    def pause(self):
        self.back.release()
        self.go.acquire()

    def run(self):
        for op in self.program:
            self.go.acquire()
            self.lines = 0
            self.record('call', op, None)
            sys.settrace(self.tracer)
            try:
                done = perform(op, self.shared)
            except BaseException as e:
                done = dict(op['do'], crash=repr(e)[:200])
            finally:
                sys.settrace(None)
            self.record('return', op, done)
            self.back.release()
        self.over = True


class Nested(WhatamiTreeVisitor):
    """Parses in the middle of a parse."""
    def __init__(self, inner, seen):
        super(Nested, self).__init__()
        self.inner, self.seen = inner, seen

    def visit_kv(self, node, children):
        self.seen.append(outcome(lambda: parse_whatid(self.inner), as_what))
        return WhatamiTreeVisitor.visit_kv(node, children)


def perform(op, shared):
    do = op['do']
    if do['op'] == 'id' and op.get('shared'):
        w = shared[op['shared'] - 1]
        return dict(do, obs=outcome(lambda: w.id(nonids_too=do['nonids']), as_text))
    if do['op'] == 'thing':
        return dict(do, obs=answer(do))
    if do['op'] == 'chained':
        v = plugins_h.dec_(do['v'])
        return dict(do, v=plugins_h.pys(v, plugins_h.enc_(v)), obs=outcome(lambda: M.build_string(v), as_text))
    if do['op'] in CHANGES:
        return dict(do, obs=CHANGES[do['op']](do))
    if do['op'] == 'nested':
        outer, inner, seen = text(do['outer']['s']), text(do['inner']['s']), []
        obs = outcome(lambda: parse_whatid(outer, visitor=Nested(inner, seen)), as_what)
        return dict(do, outer=dict(do['outer'], env=env_of(outer), obs=obs),
                    inner=[dict(do['inner'], env=env_of(inner), obs=o) for o in seen])
    return lang.OPS[do['op']](do)


def insert(do):
    p = plugins_h.plugin(do['p'])
    if do['before'] == 'default':
        return outcome(lambda: M.insert(p), lambda r: 0)
    before = None if do['before'] == 'last' else plugins_h.plugin(do['before'])
    return outcome(lambda: M.insert(p, before=before), lambda r: 0)


# Changing the chain of plugins
CHANGES = {'insert': insert, 'drop': lambda do: outcome(lambda: M.drop(plugins_h.plugin(do['p'])), lambda r: 0),
           'reset': lambda do: outcome(M.reset, lambda r: 0)}


def answer(do):
    r = outcome(lambda: env_child.thing({'key': do['key'], 'nested': True}), lambda r: r)
    return r if r['ok'] else {'ok': False, 'err': r['err']}


THINGS = [k for k, (need, _) in enumerate(env_child.THINGS) if need != 'sklearn']
STALL = 0.2


def execute(prop, case):
    import routes
    lang.OPS.update(routes.OPS)
    M.reset()
    chain = plugins_h.names(plugins_h.DEFAULT) if any(op['do']['op'] in CHANGES for p in case['programs'] for op in p) else []
    events = []
    order = threading.Lock()
    shared = [dec(v) for v in case.get('shared', ())]

    def recorder(t):
        def record(what, op, done):
            with order:
                e = {'op': what, 't': t}
                if done is None:
                    e['k'] = op['k']
                else:
                    e['do'] = done
                events.append(e)
        return record
    keys = sorted({op['do']['key'] for p in case['programs'] for op in p if op['do']['op'] == 'thing'})
    alone = [[k, answer({'key': k})] for k in keys]
    workers = []
    for t, program in enumerate(case['programs']):
        ops = [dict(op, k=k + 1) for k, op in enumerate(program)]
        for op in ops:
            op['do'] = dict(op['do'])
        workers.append(Worker(ops, shared, recorder(t + 1)))
    for w in workers:
        w.start()
    cuts = random.Random(case.get('pick', 0))
    paused = {}  # by thread: how far within the operation
    running = set()  # let go, and neither back nor at the end (waiting for another one?)

    def wait(t, seconds):
        w = workers[t]
        if w.back.acquire(timeout=seconds):
            running.discard(t)
            return True
        running.add(t)
        return False

    def step(t):
        w = workers[t]
        if t in running and not wait(t, STALL):
            return
        if w.over or not w.is_alive():
            return
        w.cut = (w.lines if paused.get(t) else 0) + int(10 ** cuts.uniform(0.3, case.get('reach', 3.4)))
        paused[t] = True
        w.go.release()
        wait(t, STALL)
    for t in case['schedule']:
        step((t - 1) % len(workers))
    # To the end, one after another
    for _ in range(2):
        for t, w in enumerate(workers):
            for _ in range(len(w.program) * 2 + 2):
                if t in running and not wait(t, STALL):
                    break
                if w.over:
                    break
                w.cut = None
                w.go.release()
                if not wait(t, STALL):
                    break
    limit = 40
    for t, w in enumerate(workers):
        while not w.over and limit > 0:
            if not wait(t, 0.5):
                limit -= 0.5
            elif not w.over:
                w.cut = None
                w.go.release()
    with order:
        ended = [w.over for w in workers]
        M.reset()
        return {'cfg': {'programs': [[{'do': dict(op['do'])} for op in p] for p in case['programs']], 'ended': ended, 'alone': alone, 'chain': chain}, 'ops': list(events) + [{'op': 'end'}]}


def generate(prop, rng, tier):
    pools = {}

    def question():
        q = rng.choice(['C01', 'C02', 'C02', 'C03', 'C03', 'C03', 'C04', 'C05', 'C06', 'C07', 'C09', 'C18', 'C20', 'C20', 'C22', 'C26'])
        if not pools.get(q):
            pools[q] = []
            for c in lang.generate(q, random.Random(rng.random()), 'short'):
                pools[q] += c['ops']
                if len(pools[q]) > 400:
                    break
            rng.shuffle(pools[q])
        return pools[q].pop()
    def changing():
        if rng.random() < 0.1:
            return {'op': 'reset'}
        if rng.random() < 0.5:
            return {'op': 'drop', 'p': rng.choice(names)}
        return {'op': 'insert', 'p': rng.choice(custom if rng.random() < 0.7 else names),
                'before': rng.choice(['default', 'last'] + names * 2)}
    custom, names = ['c1', 'c2', 'c3', 'c4', 'c5', 'c6'], plugins_h.names(plugins_h.DEFAULT)
    values = [3, 0, 'a', "it's", None, True, 1.5, [], (), {}, set(), plugins_h.Thing()] + plugins_h.OTHERS[:16]
    for _ in range(160 * (10 if tier == 'thorough' else 1)):
        n = rng.choice([2, 2, 3])
        programs = [[{'do': changing()} for _ in range(rng.choice([1, 2, 3, 4]))]]
        for _ in range(n - 1):
            vs = [rng.choice(values) for _ in range(rng.choice([1, 2, 3]))]
            programs.append([{'do': {'op': 'chained', 'v': plugins_h.enc_(v)}} for v in vs])
        yield {'programs': programs, 'shared': [], 'schedule': [rng.choice([1, 2, 2, rng.randint(1, n)]) for _ in range(rng.randint(4, 16))],
               'pick': rng.randrange(10 ** 6), 'reach': rng.choice([1.2, 1.6, 2])}
    g = Gen(rng, nan=True)
    for _ in range(500 * (10 if tier == 'thorough' else 1)):
        shared = [g.top(2) for _ in range(2)]
        n = rng.choice([2, 2, 2, 3])
        programs = []
        for _ in range(n):
            p = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                if rng.random() < 0.2:
                    i = rng.randrange(2)
                    p.append({'do': {'op': 'id', 'v': shared[i], 'nonids': rng.random() < 0.5}, 'shared': i + 1})
                elif rng.random() < 0.15:
                    p.append({'do': {'op': 'thing', 'key': rng.choice(THINGS)}})
                elif rng.random() < 0.12:
                    a, b = [codes(lang.real_id(g.top(2))) for _ in range(2)]
                    if b'='[0] in a:
                        p.append({'do': {'op': 'nested', 'outer': {'op': 'parse', 's': a}, 'inner': {'op': 'parse', 's': b}}})
                else:
                    p.append({'do': question()})
            programs.append(p)
        if rng.random() < 0.3:
            programs[1] = [dict(op) for op in programs[0]]
        yield {'programs': programs, 'shared': shared, 'schedule': [rng.randint(1, n) for _ in range(rng.randint(4, 16))],
               'pick': rng.randrange(10 ** 6), 'reach': rng.choice([1.5, 2.5, 3.4, 4])}
