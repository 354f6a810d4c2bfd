"""worker.py gen PROPERTY SEED EPISODES SECONDS OUT   random episodes -> trace OUT
worker.py exec IN OUT                               events (or sessions of models) of IN executed -> OUT

OUT.cur holds the event being executed, OUT.err what went wrong in the harness.
"""
import json
import os
import random
import resource
import sys
import time
import traceback

resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import expand         # noqa: E402
import gen            # noqa: E402
import plans          # noqa: E402
import tbdrive        # noqa: E402


class Done(Exception):
    pass


def dumps(ev):
    return json.dumps(ev, default=int)


class Writer(object):
    def __init__(self, out):
        self.out = open(out, 'w')
        self.cur = open(out + '.cur', 'w')
        self.n = 0

    def before(self, ev):
        self.cur.seek(0)
        self.cur.write(dumps(ev) + '\n')
        self.cur.truncate()
        self.cur.flush()

    def after(self, ev):
        self.out.write(dumps(ev) + '\n')
        self.n += 1

    def close(self):
        self.out.close()
        self.cur.seek(0)
        self.cur.truncate()
        self.cur.close()


def main_gen(prop, seed, n, seconds, out):
    w = Writer(out)
    until = time.time() + float(seconds)
    s = tbdrive.Session(w.before)
    events = []

    def emit(ev):
        events.append(ev)
        w.after(ev)
        if time.time() > until:
            raise Done()
    done = errors = 0
    try:
        g = gen.Gen(random.Random('%s %s' % (prop, seed)), s, emit)
        g.events = events
        while done < int(n):
            if done:
                g.reset()
            del events[:]
            g.done = done
            done += 1
            try:
                plans.PLANS[prop](g)
            except Done:
                raise
            except Exception:
                errors += 1
                with open(out + '.err', 'a') as f:
                    traceback.print_exc(file=f)
    except Done:
        pass
    w.close()
    print(json.dumps({'episodes': done, 'errors': errors, 'events': w.n}))


def main_exec(src, out):
    w = Writer(out)
    s = tbdrive.Session(w.before)
    n = 0
    with open(src) as f:
        for line in f:
            if line.strip():
                x = json.loads(line)
                for ev in (expand.session(x[1], x[0]) if isinstance(x, list) else [x]):
                    n += ev['ev'] == 'reset'
                    s.run(ev)
                    w.after(ev)
    w.close()
    print(json.dumps({'episodes': n, 'errors': 0, 'events': w.n}))


if __name__ == '__main__':
    {'gen': main_gen, 'exec': main_exec}[sys.argv[1]](*sys.argv[2:])
