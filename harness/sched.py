"""
Runs several calls in threads that take turns at chosen source lines of
typedload, so that every interleaving with one preemption (and random ones
with many) is explored, always in the same way.
"""
import json, os, random, sys, threading

import typedload
from typedload import exceptions as X

HOME = os.path.dirname(os.path.abspath(typedload.__file__)) + os.sep


class Turns:
    """One thread at a time; choose(thread, step) says who goes on."""

    def __init__(self, n, choose, patience=0.4):
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.steps = [0] * n
        self.choose = choose
        self.patience = patience

    def hand(self, me, to):
        if to == me or self.done[to]:
            return
        self.sem[to].release()
        # a thread that waits for a lock held by this one never comes back
        self.sem[me].acquire(timeout=self.patience)

    def step(self, me):
        self.steps[me] += 1
        self.hand(me, self.choose(me, self.steps[me]))

    def finish(self, me):
        self.done[me] = True
        for t, d in enumerate(self.done):
            if not d:
                self.sem[t].release()
                return

    def trace(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.step(me)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(HOME):
                return local
            return None
        return glob


def together(calls, choose):
    """The results of the calls, and how many steps each took"""
    T = Turns(len(calls), choose)
    res = [('leak', 'hang')] * len(calls)

    def run(me):
        T.sem[me].acquire()
        sys.settrace(T.trace(me))
        try:
            r = ('ok', calls[me]())
        except X.TypedloadException as e:
            r = ('err', e)
        except Exception as e:
            r = ('leak', e)
        finally:
            sys.settrace(None)
        res[me] = r
        T.finish(me)
    ts = [threading.Thread(target=run, args=(j,), daemon=True) for j in range(len(calls))]
    for t in ts:
        t.start()
    T.sem[0].release()
    for t in ts:
        t.join(10)
    return res, T.steps


def one_preemption(first, second, k):
    """first runs k lines, then second to its end, then the rest"""
    def choose(me, step):
        return second if me == first and step == k else me
    return choose


def ping_pong(n, k):
    """The threads take turns every k lines"""
    def choose(me, step):
        return (me + 1) % n if step % k == 0 else me
    return choose


def at_random(n, rng, p):
    def choose(me, step):
        return rng.randrange(n) if rng.random() < p else me
    return choose


def run_threads(rec, Ls, Ds, op):
    """Every distinct outcome of every job: (job, value, outcome, schedule)"""
    rng = random.Random(op['seed'])
    jobs = op['jobs']
    n = len(jobs)
    seen, out, alone = set(), [], []

    def once(choose, name, jobs=jobs):
        loaders, dumpers = {}, {}
        calls, vals = [], []
        for j in jobs:
            v = rec.ev(j['v'])
            vals.append(v)
            if j['op'] == 'load':
                if j['l'] not in loaders:
                    loaders[j['l']] = rec.loader(Ls[j['l']]['cfg'])['obj']
                calls.append(lambda l=loaders[j['l']], v=v, t=rec.ev(j['t']): l.load(v, t))
            else:
                if j['l'] not in dumpers:
                    dumpers[j['l']] = rec.dumper(Ds[j['l']]['cfg'])['obj']
                calls.append(lambda d=dumpers[j['l']], v=v: d.dump(v))
        if op.get('warm') is not None and len(jobs) > 1:
            j = jobs[op['warm']]
            try:
                if j['op'] == 'load':
                    loaders[j['l']].load(rec.ev(j['v']), rec.ev(j['t']))
                else:
                    dumpers[j['l']].dump(rec.ev(j['v']))
            except Exception:
                pass
        res, steps = together(calls, choose)
        rec.schedules = getattr(rec, 'schedules', 0) + 1
        for j, v, r in zip(jobs, vals, res):
            o = rec.outcome(r)
            if len(jobs) == 1:
                alone.append(o)
                continue
            key = json.dumps([jobs.index(j), o], sort_keys=True, default=str)
            if key not in seen:
                seen.add(key)
                out.append((j, v, o, name, alone[jobs.index(j)]))
        return steps

    for j in jobs:
        once(lambda me, step: me, 'alone', [j])

    # alone, one after the other
    steps = once(lambda me, step: me, 'serial')
    most = op.get('most', 24)
    for a in range(n):
        for b in range(n):
            if a == b:
                continue
            if a != 0:
                continue        # the first one to run is number 0: rotate the jobs instead
            total = steps[a]
            ks = range(1, total + 1) if total <= most else sorted(rng.sample(range(1, total + 1), most))
            for k in ks:
                once(one_preemption(a, b, k), 'preempt %d at %d for %d' % (a, k, b))
    for k in (1, 2, 3, 7):
        once(ping_pong(n, k), 'every %d' % k)
    for _ in range(op.get('random', 4)):
        once(at_random(n, random.Random(rng.random()), rng.choice([.1, .3, .6])), 'random')
    return out
