"""Executes events of a session on the real library and records observations.

Only the public interface of the library is used.  An event is a dict in the
format of spec/Trace.tla (fields the specification does not read tell how the
arguments are written down in Python); `Session.run(ev)` performs it and sets
ev['r'] to the observed result.
"""
import ast
import collections
import datetime
import itertools
import math
import numbers
import operator
import re
import signal
import types
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd

warnings.simplefilter('ignore')

import timeboard as tbm                                    # noqa: E402
from timeboard import (Timeboard, Organizer, Marker, RememberingPattern,  # noqa
                       Workshift, Interval)

EPOCH = pd.Timestamp('2000-01-01')
NS_DAY = 86400 * 10 ** 9
BADTICK = -2000000000
KNOWN = ['OutOfBoundsError', 'PartialOutOfBoundsError', 'VoidIntervalError',
         'UnacceptablePeriodError', 'KeyError', 'IndexError', 'TypeError',
         'AssertionError', 'StopIteration', 'OpTimeout', 'OverflowError',
         'ValueError', 'AttributeError', 'RuntimeError', 'LookupError']
DAYS = ['MON', 'TUE', 'WED', 'THU', 'FRI', 'SAT', 'SUN']
MONTHS = ['JAN', 'FEB', 'MAR', 'APR', 'MAY', 'JUN', 'JUL', 'AUG', 'SEP', 'OCT',
          'NOV', 'DEC']
OP_SECONDS = 45


BADDUTY = ('On', '', 'both', 'ON', None, 1, True, 'all', 'o', 'onoff')


class OpTimeout(Exception):
    pass


def _alarm(*_):
    raise OpTimeout()


def exc_name(e):
    for c in type(e).__mro__:
        if c.__name__ in KNOWN:
            return c.__name__
    return type(e).__name__


def freq_str(f):
    sp = f.get('sp', '')                # one of the ways to spell the frequency
    s = str(f['n']) if f['n'] != 1 or sp == 'one' else ''
    anchor = ''
    if f['b'] == 'W' and (f['a'] != 6 or f.get('full')):
        anchor = '-' + DAYS[f['a']]
    if f['b'] in 'QA' and (f['a'] != 12 or f.get('full')):
        anchor = '-' + MONTHS[f['a'] - 1]
    if sp == 'alt' and not anchor:
        return s + {'A': 'Y', 'T': 'min'}.get(f['b'], f['b'])
    s += f['b'] + anchor
    return s.lower() if sp == 'low' and f['b'] != 'M' else s


# --- labels ------------------------------------------------------------------
class Thing(object):
    """a label of a class of the user's own"""


# labels which are neither numbers nor strings; iterable ones are labels only within a pattern
PLAIN_OBJS = {'thing': Thing(), 'date': datetime.date(2017, 3, 4), 'ts': pd.Timestamp('2017-03-04 05:06'),
              'fn': operator.truediv}
ITER_OBJS = {'pair': (1, 2), 'single': (1,), 'void': (), 'list': [3], 'dict': {'a': 1},
             'set': frozenset([1])}
OBJS = dict(PLAIN_OBJS, **ITER_OBJS)


def canon(x):
    if x is None:
        return 'null'
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (numbers.Number, np.number)):
        try:
            if math.isnan(x):
                return 'null'
            return 'n:' + str(Fraction(float(x)).limit_denominator(10 ** 6))
        except (OverflowError, ValueError, TypeError):
            return 'o:' + repr(x)
    if isinstance(x, str):
        return 's:' + x
    for k, v in OBJS.items():
        if type(v) is type(x) and v == x:
            return 'o:' + k
    return 'o:' + type(x).__name__


def uncanon(s, style='int'):
    if s == 'null':
        return None
    if s.startswith('o:'):
        return OBJS[s[2:]]
    if s.startswith('n:'):
        f = Fraction(s[2:])
        if f.denominator == 1:
            v = int(f)
            if style == 'float':
                return float(v)
            if style == 'np':
                return np.int64(v)
            if style == 'bool' and v in (0, 1):
                return bool(v)
            return v
        return float(f) if style != 'np' else np.float64(float(f))
    return s[2:]


def num_of(s):
    """label -> [] if it is not a number, [4 * value] otherwise"""
    if not s.startswith('n:'):
        return []
    f = Fraction(s[2:]) * 4
    return [int(f)] if f.denominator == 1 else []


def truth_of(s):
    return bool(uncanon(s))


class Moment(object):
    """a point in time of a class of the user's own"""
    def __init__(self, t):
        self.t = t

    def to_timestamp(self):
        return self.t


# --- time --------------------------------------------------------------------
class Clock(object):
    def __init__(self, q):
        self.q = q
        self.ns = NS_DAY // q

    def ts(self, tick, sub=0):
        return pd.Timestamp(EPOCH.value + int(tick) * self.ns + int(sub))

    def whole(self, d):
        """nanoseconds to ticks"""
        t = d // self.ns
        return t if d % self.ns == 0 and abs(t) < 2 ** 31 - 1 else BADTICK

    def start(self, ts):
        return self.whole(pd.Timestamp(ts).value - EPOCH.value)

    def end(self, ts):
        return self.whole(pd.Timestamp(ts).value - EPOCH.value + 1)

    def ref(self, ts):
        d = pd.Timestamp(ts).value - EPOCH.value
        if d % self.ns == 0:
            return [self.whole(d), 0]
        return [self.whole(d + 1), 1]

    def write(self, tick, form, sub=0):
        """the point in time (tick + sub nanoseconds) in the given form"""
        t = self.ts(tick, sub)
        if form == 'ts':
            return t
        if form == 'dt':
            return t.to_pydatetime(warn=False)
        if form == 'date':
            return t.to_pydatetime(warn=False).date()
        if form == 'own':
            return Moment(t)
        if form == 'np':
            return t.to_datetime64()
        if form == 'iso':
            return t.isoformat()
        if form == 'text':
            return t.strftime('%d %b %Y %H:%M:%S')
        if form == 'us':
            return t.strftime('%m/%d/%Y %H:%M:%S')
        if form == 'day':
            return t.strftime('%d %b %Y')
        if form == 'ym':
            return t.strftime('%Y-%m')
        if form.startswith('per:'):
            return pd.Period(t, freq=form[4:])
        raise RuntimeError(form)


class Session(object):
    def __init__(self, before=lambda ev: None):
        self.before = before
        self.reset()
        signal.signal(signal.SIGALRM, _alarm)

    def reset(self):
        self.rps, self.tbs, self.sids, self.objs, self.iters, self.spare = {}, {}, {}, {}, {}, {}
        self.rplabels = {}
        self.clocks, self.boards, self.orgs, self.results = {}, {}, {}, {}
        self.shared = {}

    # --- building -------------------------------------------------------------
    def labels(self, ls, ev):
        st = ev.get('style', 'int')
        r = [uncanon(x, st) for x in ls]
        c = ev.get('cont', 'list')
        if c == 'tuple':
            return tuple(r)
        if c == 'np' and r and st != 'bool' and all(isinstance(x, (int, float)) for x in r):
            return np.array(r)
        return self.CONTAINERS.get(c, list)(r)

    CONTAINERS = {'deque': collections.deque, 'bare': lambda x: Bare(x),
                  'series': lambda x: pd.Series(x, dtype=object, index=range(5, 5 + len(x)))}

    MARKS = dict(CONTAINERS, set=set, frozen=frozenset, keys=lambda x: dict.fromkeys(x).keys())

    def point(self, clock, p):
        """p: {'t': tick, 'form':, 'sub':}"""
        return clock.write(p['t'], p.get('form', 'ts'), p.get('sub', 0))

    def marker(self, og, clock):
        each = freq_str(og['each'])
        if og['how'] == 'none':
            if og.get('wrap') == 'marker':
                return Marker(each=each)
            if og.get('wrap') == 'empty':
                return Marker(each=each, at=[])
            return each
        if og['how'] == 'pts':              # a function of the user's own
            m = 1 + len(og['at']) % 3
            pts = pd.DatetimeIndex([clock.ts(t) for t in og['at']])

            def given(pi, normalize_by=None, i=None, **kw):
                if kw:
                    raise RuntimeError(kw)
                return pts[i::m]
            return Marker(each=each, at=[{'i': i} for i in range(m)], how=given)
        if og.get('user'):                  # does what from_start_of_each does
            base = self.base

            def offsets(pi, normalize_by, **kw):
                if normalize_by != base:
                    raise RuntimeError(normalize_by)
                offset = pd.DateOffset(**kw)
                found = [(p.start_time, p.start_time + offset, p.end_time) for p in pi]
                found = [(pd.Period(t, freq=base).start_time, z)
                         for a, t, z in reversed(found) if a <= t]
                return pd.DatetimeIndex([t for t, z in found if t <= z])
            return Marker(each=each, at=[dict(x) for x in og['kw']], how=offsets)
        how = {'start': 'from_start_of_each', 'nth': 'nth_weekday_of_month',
               'west': 'from_easter_western', 'orth': 'from_easter_orthodox'}[og['how']]
        kw = {} if og.get('dfltHow') else {'how': how}
        return Marker(each=each, at=[dict(x) for x in og['kw']], **kw)

    def element(self, el, ev, clock):
        k, v = el['k'], el['v']
        if k == 'lab':
            return uncanon(v, ev.get('style', 'int'))
        if k == 'pat':
            return self.labels(v, ev)
        if k == 'rp':
            return self.rps[v]
        return self.organizer(v, ev, clock)

    def organizer(self, og, ev, clock):
        if 'oid' in og and og['oid'] in self.orgs:
            return self.orgs[og['oid']]
        st = og['st']
        if st['rp'] != '':
            structure = self.rps[st['rp']]
        else:
            structure = [self.element(x, ev, clock) for x in st['e']]
            if ev.get('cont') == 'tuple':
                structure = tuple(structure)
            elif ev.get('cont') in ('deque', 'bare'):
                structure = self.CONTAINERS[ev['cont']](structure)
        if og['k'] == 'marks':
            marks = [self.point(clock, p) for p in og['mk']]
            if og.get('single') and len(marks) == 1:
                marks = marks[0]
            elif og.get('mcont') == 'tuple':
                marks = tuple(marks)
            elif og.get('mcont') == 'index' and all(isinstance(m, pd.Timestamp) for m in marks):
                marks = pd.DatetimeIndex(marks)
            elif og.get('mcont') == 'np' and all(isinstance(m, pd.Timestamp) for m in marks):
                marks = np.array(marks, dtype='datetime64[ns]')
            elif og.get('mcont') in self.MARKS:
                marks = self.MARKS[og['mcont']](marks)
            r = Organizer(marks=marks, structure=structure)
        else:
            r = Organizer(marker=self.marker(og, clock), structure=structure)
        if 'oid' in og:
            self.orgs[og['oid']] = r
        return r

    def selector(self, on, kind):
        on = frozenset(on)
        if kind == 'int':
            return lambda x: 1 if canon(x) in on else 0
        if kind == 'np':
            return lambda x: np.bool_(canon(x) in on)
        if kind == 'float':
            return lambda x: 2.5 if canon(x) in on else 0.0
        if kind == 'word':
            return lambda x: 'yes' if canon(x) in on else ''
        return lambda x: canon(x) in on

    def build_args(self, ev, clock):
        self.base = freq_str(ev['f'])
        if ev.get('plain'):
            layout = self.element(ev['org']['st']['e'][0], ev, clock)
            if ev.get('once') and isinstance(layout, list):
                layout = iter(layout)
        else:
            layout = self.organizer(ev['org'], ev, clock)
        am = {}
        for p, v in zip(ev['am']['p'], ev['am']['v']):
            am[self.point(clock, p)] = uncanon(v, ev.get('style', 'int'))
        kw = {}
        if am or ev.get('amEmpty'):
            kw['amendments'] = {'ordered': collections.OrderedDict, 'proxy': types.MappingProxyType,
                                'user': collections.UserDict,
                                'series': lambda x: pd.Series(x, dtype=object)}.get(
                                    ev.get('amcont'), lambda x: x)(am)
        if ev['selkind'] != 'default':
            kw['default_selector'] = self.selector(ev['on'], ev['selkind'])
        if ev['name'] != 'on_duty' or ev.get('nameGiven'):
            kw['default_name'] = ev['name']
        if ev['ref'] != 'start' or ev.get('refGiven'):
            kw['workshift_ref'] = ev['ref']
        if ev['wts'] != 'duration' or ev.get('wtsGiven'):
            kw['worktime_source'] = ev['wts']
        if ev.get('deflabGiven'):
            kw['default_label'] = uncanon(ev['deflab'], ev.get('style', 'int'))
        return layout, am, kw

    def do_build(self, ev):
        clock = Clock(ev['q'])
        if ev['mode'] == 'text':
            return self.enter(ev, clock, self.run_text(repr(self.tbs[ev['twin']])), True)
        layout, am, kw = self.build_args(ev, clock)
        start = self.point(clock, ev['sp'])
        end = self.point(clock, ev['ep'])
        before = repr_args(layout, am)
        tb = Timeboard(freq_str(ev['f']), start, end, layout, **kw)
        r = self.enter(ev, clock, tb, repr_args(layout, am) == before)
        am.clear()                      # the timeboard has no use for them any more
        if ev.get('plain') and isinstance(layout, list):
            layout[:] = ['scribble']
        return r

    def enter(self, ev, clock, tb, args):
        b = ev['b']
        self.tbs[b], self.clocks[b] = tb, clock
        self.sids[ev['sid']] = tb.default_schedule
        self.boards[b] = r = self.observe(tb, clock)
        r['args'] = args
        return r

    @staticmethod
    def run_text(text):
        """the text form of a timeboard is the code which makes one"""
        code = ast.parse(text)
        names = {'Timeboard': Timeboard, 'Organizer': Organizer, 'Marker': Marker,
                 'RememberingPattern': RememberingPattern, 'Timestamp': pd.Timestamp,
                 'Period': pd.Period, 'DatetimeIndex': pd.DatetimeIndex, 'datetime': datetime,
                 'array': np.array, 'nan': float('nan'), 'numpy': np}
        exec(compile(ast.Module(code.body[:-1], []), 'text', 'exec'), names)
        return eval(compile(ast.Expression(code.body[-1].value), 'text', 'eval'), names)

    def observe(self, tb, clock):
        S, E, D, R, L, on = [], [], [], [], [], []
        n = 0
        while n < 100000:
            try:
                w = Workshift(tb, n)
            except tbm.OutOfBoundsError:
                break
            S.append(clock.start(w.start_time))
            E.append(clock.end(w.end_time))
            D.append(int(w.duration))
            R.append(clock.ref(w.to_timestamp()))
            L.append(canon(w.label))
            on.append(bool(w.is_on_duty()) and not w.is_off_duty())
            n += 1
        return {'k': 'board', 'S': S, 'E': E, 'D': D, 'R': R, 'L': L, 'on': on,
                'st': clock.start(tb.start_time), 'en': clock.end(tb.end_time),
                'len': len(tb.get_interval()), 'sch': tb.default_schedule.name}

    # --- views --------------------------------------------------------------------
    def ws_view(self, clock, w):
        if not isinstance(w, Workshift):
            return {'k': 'odd', 'v': type(w).__name__}
        return {'k': 'ws', 's': clock.start(w.start_time), 'e': clock.end(w.end_time),
                'd': int(w.duration), 'r': clock.ref(w.to_timestamp()),
                'l': canon(w.label), 'on': bool(w.is_on_duty()),
                'sch': w.schedule.name}

    def ivl_view(self, clock, v):
        if not isinstance(v, Interval):
            return {'k': 'odd', 'v': type(v).__name__}
        if len(v) == 0 or pd.isnull(v.start_time):
            ok = (len(v) == 0 and v.length == 0 and pd.isnull(v.start_time)
                  and pd.isnull(v.end_time))
            return {'k': 'void' if ok else 'odd', 'len': 0, 'sch': v.schedule.name}
        if v.length != len(v):
            return {'k': 'odd', 'v': 'length'}
        return {'k': 'ivl', 's': clock.start(v.start_time), 'e': clock.end(v.end_time),
                'len': len(v), 'sch': v.schedule.name}

    @staticmethod
    def int_view(x, scale=1):
        f = Fraction(float(x)) * scale
        if f.denominator != 1 or abs(f) > 2 ** 31 - 2:
            return {'k': 'odd', 'v': repr(x)}
        return {'k': 'int', 'v': int(f)}

    @staticmethod
    def rat_view(x):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return {'k': 'odd', 'v': repr(x)}
        for lim in (5000, 3000000):
            f = Fraction(x).limit_denominator(lim)
            if abs(float(f) - x) <= 1e-12 * max(1.0, abs(x)):
                return {'k': 'rat', 'v': [f.numerator, f.denominator]}
        return {'k': 'odd', 'v': repr(x)}

    def df_view(self, clock, df, tb):
        rows = []
        names = list(tb.schedules)
        want = ['workshift', 'ws_ref', 'start', 'duration', 'end', 'label']
        cols = list(df.columns)
        if [c for c in cols if c not in names] != [c for c in want if c in cols] or \
                len(cols) != 5 + len(names):
            return {'k': 'odd', 'v': repr(cols)}
        refcol = cols[0]
        duty = {}
        for m in names:
            duty[m] = [bool(x) for x in df[m]]
        for j, (loc, row) in enumerate(df.iterrows()):
            rows.append({'n': int(loc) + 1, 's': clock.start(row['start']),
                         'e': clock.end(row['end']), 'd': int(row['duration']),
                         'r': clock.ref(row[refcol]), 'l': canon(row['label']),
                         'duty': {m: duty[m][j] for m in names}})
        return {'k': 'df', 'rows': rows}

    # --- objects ---------------------------------------------------------------------
    def obj(self, ev, iv=None, kind=None):
        """the interval or workshift the event is about"""
        o = ev['o']
        iv = o['iv'] if iv is None else iv
        kind = o['kind'] if kind is None else kind
        key = (kind, ev['b'], tuple(iv), o['s'], tuple(o.get('via', ())))
        private = ev['ev'] == 'iter' and ev['a']['how'] == 'self' if 'ev' in ev else False
        if key in self.objs and not ev.get('fresh') and not private:
            return self.objs[key]
        tb = self.tbs[ev['b']]
        s = self.sids[o['s']]
        kw = {} if (o['s'] == ev.get('dflt') and not o.get('givs')) else {'schedule': s}
        if kind == 'ws':
            r = Workshift(tb, iv[0] - 1, **kw)
        elif iv:
            r = Interval(tb, (iv[0] - 1, iv[1] - 1), **kw)
        else:
            v = o['via']
            r = Interval(tb, (v[0] - 1, v[1] - 1), **kw).overlap(
                Interval(tb, (v[2] - 1, v[3] - 1)))
        if not private:
            self.objs[key] = r
        return r

    def xkw(self, ev):
        return {} if ev['x'] == '' else {'schedule': self.sids[ev['x']]}

    # --- queries ------------------------------------------------------------------------
    def do_q(self, ev):
        op, a, b = ev['op'], ev['a'], ev['b']
        tb, clock = self.tbs[b], self.clocks[b]
        kw = self.xkw(ev)
        W = lambda w: self.ws_view(clock, w)                      # noqa: E731
        V = lambda v: self.ivl_view(clock, v)                     # noqa: E731
        if op == 'locate':
            return W(tb.get_workshift(self.pt(clock, b, a), **kw))
        if op == 'call1':
            return W(tb(self.pt(clock, b, a)))
        if op == 'view':
            return W(self.obj(ev))
        if op == 'iview':
            return V(self.obj(ev))
        if op == 'bounds':
            return V(tb.get_interval(**kw) if a['how'] == 'get' else tb(**kw)
                     if a['how'] == 'call' else tb.get_interval(None, **kw))
        if op == 'roll':
            w = self.obj(ev)
            if a['how'] == 'op':
                return W(w + a['n'] if a['fwd'] else w - a['n'])
            f = w.rollforward if a['fwd'] else w.rollback
            n = np.int64(a['n']) if a.get('np') else a['n']
            if a['how'] == 'pos':
                return W(f(n, a['duty'], *kw.values()))
            d = {}
            if a['how'] == 'full' or a['n'] != 0:
                d['steps'] = n
            if a['how'] == 'full' or a['duty'] != 'on':
                d['duty'] = a['duty']
            d.update(kw)
            return W(f(**d))
        if op == 'duty':
            w = self.obj(ev)
            v = w.is_on_duty(**kw) if a['on'] else w.is_off_duty(**kw)
            return {'k': 'bool', 'v': bool(v)}
        if op == 'sched':
            s = self.sids[ev['o']['s']]
            ps = [[int(x) + 1 for x in v] for v in (s.index, s.on_duty_index, s.off_duty_index)]
            if ps[0] != list(range(1, len(ps[0]) + 1)):
                return {'k': 'odd', 'v': ps[0]}
            return {'k': 'sched', 'name': s.name, 'n': len(ps[0]), 'on': ps[1], 'off': ps[2]}
        if op == 'schws':
            s, p = self.sids[ev['o']['s']], ev['o']['iv'][0] - 1
            on, off = bool(s.is_on_duty(p)), bool(s.is_off_duty(p))
            return {'k': 'schws', 'l': canon(s.label(p)), 'on': on} if on != off else \
                {'k': 'odd', 'v': [on, off]}
        if op == 'select':
            return {'k': 'bool', 'v': bool(tb.default_selector(self.obj(ev).label))}
        if op == 'wswork':
            return self.int_view(self.obj(ev).worktime(**self.dkw(a, kw)), 4)
        if op == 'wsat':
            p = a['p'] - 1
            return W(Workshift(tb, np.int64(p) if a['how'] == 'np' else p, **kw))
        if op == 'ivlpts':
            f = tb if a['how'] == 'call' else tb.get_interval
            if a['open'][0] == 'absent' or a['open'][0].startswith('null:'):
                k = dict(kw)
                if a['closed'] != '11':
                    k['closed'] = a['closed']
                if a['open'][0] == 'absent':
                    return V(f(**k))
                if f is tb and not k:       # it would be looked up as a point
                    f = tb.get_interval
                return V(f(self.open_end(a['open'][0][5:]), **k))
            ref = tuple(self.open_end(a['open'][j]) if not a['t%d' % j] else
                        self.pt(clock, b, {'t': a['t%d' % j][0], 'form': a['forms'][j],
                                           'sub': a['subs'][j]}) for j in (0, 1))
            k = dict(kw)
            if a['closed'] != '11':
                k['closed'] = a['closed']
            return V(f(ref, **k))
        if op == 'ivllen':
            k = dict(kw)
            if a['closed'] != '11':
                k['closed'] = a['closed']
            return V((tb if a['how'] == 'call' else tb.get_interval)(
                self.pt(clock, b, a), length=a['n'], **k))
        if op == 'ivlper':
            k = dict(kw)
            if a['closed'] != '11':
                k['closed'] = a['closed']
            if not a['clip']:
                k['clip_period'] = False
            fr = freq_str(a['g'])
            if a['how'] == 'period':
                return V(tb.get_interval(pd.Period(clock.ts(a['t']), freq=fr), **k))
            return V((tb if a['how'] == 'call' else tb.get_interval)(
                self.pt(clock, b, a), period=fr, **k))
        if op == 'ivlpos':
            p = (a['p0'] - 1, a['p1'] - 1)
            if a['how'] == 'ws':
                p = (Workshift(tb, p[0]), Workshift(tb, p[1]))
            elif a['how'] == 'mix':
                p = [p[0], Workshift(tb, p[1])]
            return V(Interval(tb, p, **kw))
        v = self.obj(ev)
        if op == 'nth':
            if a['how'] == 'first':
                return W(v.first(**self.dkw(a, kw)))
            if a['how'] == 'last':
                return W(v.last(**self.dkw(a, kw)))
            return W(v.nth(np.int64(a['n']) if a.get('np') else a['n'], **self.dkw(a, kw)))
        if op == 'count':
            return self.int_view(v.count(**self.dkw(a, kw)))
        if op == 'list':
            if a['how'] == 'iter':
                return {'k': 'list', 'v': [W(w) for w in v]}
            return {'k': 'list', 'v': [W(w) for w in v.workshifts(**self.dkw(a, kw))]}
        if op == 'len':
            return self.int_view(len(v) if a['how'] == 'len' else v.length)
        if op == 'dur':
            return self.int_view(v.total_duration(**self.dkw(a, kw)))
        if op == 'work':
            return self.int_view(v.worktime(**self.dkw(a, kw)), 4)
        if op in ('overlap', 'portion'):
            j = a['j']
            u = self.obj({'b': b, 'o': j, 'dflt': ev.get('dflt'), 'fresh': ev.get('fresh')})
            if op == 'overlap':
                return V(v * u if a['how'] == 'op' else v.overlap(u, **kw))
            return self.rat_view(v / u if a['how'] == 'op' else
                                 v.what_portion_of(u, **self.dkw(a, kw)))
        if op == 'cper':
            fr = {'A': 'Y', 'T': 'min'}.get(a['g']['b']) if a.get('alias') else None
            return self.rat_view(v.count_periods(fr or freq_str(a['g']), **self.dkw(a, kw)))
        raise RuntimeError(op)

    @staticmethod
    def open_end(k):
        return {'none': None, 'nan': float('nan'), 'nat': pd.NaT}[k]

    def pt(self, clock, b, a):
        form = a.get('form', 'ts')
        if form.startswith('ws:'):
            return Workshift(self.tbs[b], int(form[3:]) - 1)
        return clock.write(a['t'], form, a.get('sub', 0))

    @staticmethod
    def dkw(a, kw):
        d = dict(kw)
        if a['duty'] != 'on' or a.get('dutyGiven'):
            d['duty'] = a['duty']
        return d

    # --- other events --------------------------------------------------------------------
    def do_add(self, ev):
        tb = self.tbs[ev['b']]
        n = ev['name']
        if ev.get('nameInt'):
            n = int(n)
        s = tb.add_schedule(n, self.selector(ev['on'], ev['selkind']))
        self.sids[ev['sid']] = s
        if ev['name'] not in tb.schedules or tb.schedules[ev['name']] is not s:
            return {'k': 'odd', 'v': 'not registered'}
        n = len(self.boards[ev['b']]['S'])
        return {'k': 'sched', 'name': s.name,
                'on': [bool(Workshift(tb, i, schedule=s).is_on_duty()) for i in range(n)]}

    def do_drop(self, ev):
        self.tbs[ev['b']].drop_schedule(self.sids[ev['sid']])
        return {'k': 'none'}

    def do_iter(self, ev):
        v = self.obj(ev) if ev['a']['how'] != 'spare' else None
        if ev['a']['how'] == 'iter':
            self.iters[ev['a']['id']] = (iter(v), self.clocks[ev['b']])
        elif ev['a']['how'] == 'spare':     # what iter() of such an interval has returned
            self.iters[ev['a']['id']] = (self.spare[ev['a']['of']], self.clocks[ev['b']])
        elif ev['a']['how'] == 'self':      # the interval itself is the iterator
            self.spare[ev['a']['id']] = iter(v)
            self.iters[ev['a']['id']] = (v, self.clocks[ev['b']])
        else:
            self.iters[ev['a']['id']] = (iter(v.workshifts(**self.dkw(ev['a'], self.xkw(ev)))),
                                         self.clocks[ev['b']])
        return {'k': 'none'}

    def do_next(self, ev):
        it, clock = self.iters[ev['id']]
        return self.ws_view(clock, next(it))

    def do_table(self, ev):
        tb, clock = self.tbs[ev['b']], self.clocks[ev['b']]
        if ev['how'] == 'ivl':
            df = Interval(tb, (ev['lo'] - 1, ev['hi'] - 1)).to_dataframe()
        elif ev['how'] == 'all':
            df = tb.to_dataframe()
        elif ev['how'] == 'from':
            df = tb.to_dataframe(first_ws=ev['lo'] - 1)
        elif ev['how'] == 'to':
            df = tb.to_dataframe(last_ws=ev['hi'] - 1)
        else:
            df = tb.to_dataframe(ev['lo'] - 1, ev['hi'] - 1)
        r = self.df_view(clock, df, tb)
        for c in df.columns:                # the table is its receiver's
            df[c].values[:] = df[c].values[::-1].copy()
        df.iloc[:, :] = None
        return r

    WS_TEXT = r"(?:(\d+)x)?'([^']*)' at (.*)"

    def period_text(self, tb, clock, text, end=False):
        """first (last) tick of the base unit shown as `text`"""
        p = pd.Period(text.split('/')[0], freq=tb.base_unit_freq)
        if str(p) != text:
            return text
        return clock.end(p.end_time) if end else clock.start(p.start_time)

    def do_text(self, ev):
        tb, clock, iv = self.tbs[ev['b']], self.clocks[ev['b']], ev['o']['iv']
        v = self.obj(ev)
        sch = lambda x: [] if x is None else [x]                   # noqa: E731
        if not iv:
            m = re.match(r"Interval \(\(\d+, \d+\)(?:, (.*))?\): void \[0\]\Z", repr(v), re.S)
            if not m or str(v) != repr(v):
                return {'k': 'odd', 'v': repr(v)}
            return {'k': 'text', 'void': sch(m.group(1))}
        w = self.obj(dict(ev, fresh=ev.get('fresh')), [iv[0]], 'ws')
        ok = [str(v).endswith('{}'.format(tb.to_dataframe(iv[0] - 1, iv[1] - 1))),
              str(w).endswith('{}'.format(tb.to_dataframe(iv[0] - 1, iv[0] - 1))),
              str(tb).endswith('{!r}'.format(tb.to_dataframe())),
              str(v).startswith(repr(v)), str(w).startswith(repr(w))]
        mw = re.match(r"Workshift\((\d+)(?:, (.*))?\) of " + self.WS_TEXT + r"\Z", repr(w), re.S)
        mv = re.match(r"Interval\(\((\d+), (\d+)\)(?:, (.*))?\): " + self.WS_TEXT + " -> "
                      + self.WS_TEXT + r" \[(\d+)\]\Z", repr(v), re.S)
        mt = re.match("Timeboard of '([^']*)': (.*) -> ([^\n]*)", str(tb))
        if not (mw and mv and mt):
            return {'k': 'odd', 'v': repr((w, v)) + str(tb)[:60]}
        shift = lambda d, f, t: [int(d or 1), f == tb.base_unit_freq,       # noqa: E731
                                 self.period_text(tb, clock, t)]
        g, h = mw.groups(), mv.groups()
        return {'k': 'text', 'tables': ok,
                'ws': {'loc': int(g[0]), 'sch': sch(g[1]), 'at': shift(*g[2:5])},
                'ivl': {'loc': [int(h[0]), int(h[1])], 'sch': sch(h[2]), 'from': shift(*h[3:6]),
                        'to': shift(*h[6:9]), 'len': int(h[9])},
                'tb': [mt.group(1) == tb.base_unit_freq, self.period_text(tb, clock, mt.group(2)),
                       self.period_text(tb, clock, mt.group(3), True)]}

    def do_snap(self, ev):
        tb, clock = self.tbs[ev['b']], self.clocks[ev['b']]
        o = self.observe(tb, clock)
        on = {}
        for name, s in tb.schedules.items():
            if s.name != name:
                on[name] = []
                continue
            on[name] = [bool(Workshift(tb, n, schedule=s).is_on_duty())
                        for n in range(len(o['S']))]
        return {'k': 'snap', 'S': o['S'], 'E': o['E'], 'D': o['D'], 'L': o['L'], 'on': on}

    # --- calendars ---------------------------------------------------------------------------
    def cal_class(self, ev):
        if ev['c'] != 'own':
            from timeboard.calendars import US, UK, RU
            return {'us': US, 'uk': UK, 'ru': RU}[ev['c']].Weekly8x5
        from timeboard.calendars.calendarbase import CalendarBase
        clock = Clock(1440)
        wk, k = [uncanon(x) for x in ev['wk']], ev.get('units', 1)
        first, last = clock.ts(ev['d0'] * 1440), clock.ts(ev['d1'] * 1440 + 1439)
        days = {clock.ts(d * 1440): uncanon(x) for d, x in ev['am']}

        class Own(CalendarBase):
            @classmethod
            def parameters(cls):
                return {'base_unit_freq': 'D' if k == 1 else 'H', 'start': first, 'end': last,
                        'layout': Organizer(marker='W', structure=[[x for x in wk
                                                                    for _ in range(k)]]),
                        'worktime_source': 'labels'}

        def pick(custom_start, custom_end, custom_amendments, days):
            r = {d: x for d, x in days.items()
                 if (custom_start is None or d >= custom_start.normalize())
                 and (custom_end is None or d <= custom_end)}
            for k, x in (custom_amendments or {}).items():
                r[pd.Timestamp(k.to_timestamp() if isinstance(k, pd.Period)
                               else k).normalize()] = x
            return r

        def amendments(cls, custom_start=None, custom_end=None, custom_amendments=None):
            return pick(custom_start, custom_end, custom_amendments, days)

        def amendments_kw(cls, custom_start=None, custom_end=None, custom_amendments=None,
                          holidays=None):
            return pick(custom_start, custom_end, custom_amendments,
                        {clock.ts(d * 1440): uncanon(x) for d, x in holidays})
        if ev['own'] == 'over':
            Own.amendments = classmethod(amendments)
        elif ev['own'] == 'kw':
            Own.amendments = classmethod(amendments_kw)
        return Own

    def cal_options(self, ev):
        o, kw = ev.get('o', {}), {}
        mk = {'set': set, 'list': list, 'tuple': tuple, 'frozenset': frozenset}
        if ev['c'] in ('us', 'uk'):
            if o['skip'] or o.get('skipGiven'):
                cont = o.get('cont', 'set')           # one object for all calendars of a session
                kw['do_not_observe'] = self.shared.setdefault((cont, tuple(o['skip'])),
                                                              mk[cont](o['skip']))
            if not o['long'] or o.get('longGiven'):
                kw['long_weekends'] = o['long']
        if ev['c'] == 'uk' and (o['country'] != 'england' or o.get('countryGiven')):
            kw['country'] = o['country']
        if ev['c'] == 'ru':
            if not o['dec31'] or o.get('dec31Given'):
                kw['work_on_dec31'] = o['dec31']
            if not o['eves'] or o.get('evesGiven'):
                kw['short_eves'] = o['eves']
        if ev['c'] == 'own' and ev['own'] == 'kw':
            kw['holidays'] = [tuple(x) for x in ev['am']]
        return kw

    def observe_cal(self, tb, wk, work=False, k=1):
        """labels of days which differ from those of the week; all days are read from the
        table, the exceptions and every 50th day from workshifts as well"""
        clock = Clock(1440)
        df = tb.to_dataframe()
        n = len(df) // k
        d0 = clock.start(tb.start_time) // 1440
        want = pd.date_range(clock.ts(d0 * 1440), periods=len(df), freq='D' if k == 1 else 'H')
        if not (len(df) == n * k == len(tb()) and clock.start(tb.start_time) == d0 * 1440
                and clock.end(tb.end_time) == (d0 + n) * 1440
                and (pd.DatetimeIndex(df['start']) == want).all()
                and (df['duration'] == 1).all()
                and (pd.DatetimeIndex(df['end'])
                     == want + pd.Timedelta(hours=24 // k) - pd.Timedelta(1, 'ns')).all()):
            return {'k': 'odd', 'v': 'not a day', 'd0': 0, 'd1': -1}
        labels, ex, on = list(df['label']), [], True
        duty = list(df[tb.default_schedule.name])
        if k > 1:                           # calendars of hours: all hours of a day are alike
            if any(canon(x) != canon(labels[i - i % k]) for i, x in enumerate(labels)):
                return {'k': 'odd', 'v': 'not a day', 'd0': 0, 'd1': -1}
            labels, duty = labels[::k], duty[::k]
        for i, x in enumerate(labels):
            odd = canon(x) != wk[(d0 + i + 5) % 7]
            if odd or i % 50 == 0:
                w = Workshift(tb, i * k)
                x = w.label
                on = on and bool(w.is_on_duty()) == bool(x) and not w.is_off_duty() == bool(x)
            on = on and bool(duty[i]) == bool(x)
            if canon(x) != wk[(d0 + i + 5) % 7]:
                ex.append([d0 + i, canon(x)])
        r = {'k': 'cal', 'd0': d0, 'd1': d0 + n - 1, 'ex': ex, 'on': on}
        if work:
            r['work'] = self.int_view(tb.get_interval().worktime(), 4).get('v', -1) // k
        return r

    WEEK = ['n:8'] * 5 + ['n:0'] * 2

    def do_cal(self, ev):
        kw = self.cal_options(ev)
        before = repr(kw)
        tb = self.cal_class(ev)(**kw)
        r = self.observe_cal(tb, ev.get('wk', self.WEEK), True, ev.get('units', 1))
        r['args'] = repr(kw) == before
        return r

    def do_custom(self, ev):
        clock = Clock(1440)
        kw = self.cal_options(ev)
        if ev['csp']:
            kw['custom_start'] = self.point(clock, ev['csp'][0])
        if ev['cep']:
            kw['custom_end'] = self.point(clock, ev['cep'][0])
        if ev['mode'] == 'only':
            kw['only_custom_amendments'] = True
        elif ev['mode'] == 'none':
            kw['do_not_amend'] = True
            if ev.get('both'):
                kw['only_custom_amendments'] = True
        if ev['ca'] or ev.get('caGiven'):
            kw['custom_amendments'] = {self.point(clock, p): uncanon(x[1])
                                       for p, x in zip(ev['cap'], ev['ca'])}
        before = repr(kw)
        tb = self.cal_class(ev)(**kw)
        r = self.observe_cal(tb, ev.get('wk', self.WEEK), k=ev.get('units', 1))
        r['args'] = repr(kw) == before
        return r

    def do_reject(self, ev):
        """calls with unacceptable arguments: ev['v'] chooses one of the variants"""
        what, v = ev['what'], ev['v']
        vals = self.rejected(ev)
        x = vals[v % len(vals)]
        return self.accepted(x())

    def accepted(self, x):
        return {'k': 'made', 'v': type(x).__name__}

    def rejected(self, ev):
        what = ev['what']
        org = lambda **kw: (lambda: Organizer(**kw))                      # noqa: E731
        if what == 'org-both':
            return [org(marker='W', marks=['01 Jan 2001'], structure=[[1]]),
                    org(marker='W', marks=[], structure=[[1]]),
                    org(marker=Marker(each='D'), marks='01 Jan 2001', structure=['a']),
                    org(marker=Marker(each='M', at=[{'days': 3}]), marks=(), structure=[0, 1])]
        if what == 'org-neither':
            return [org(structure=[[1]]), org(), org(marker=None, marks=None, structure=['a'])]
        if what == 'org-structure':
            return [org(marker='W'), org(marker='W', structure=5), org(marks=[], structure=None),
                    org(marks=['01 Jan 2001'], structure='abc'), org(marker='D', structure=1.5),
                    org(marker='M', structure=''), org(marker='M', structure=0),
                    org(marks=[], structure=False)]
        tbd = lambda lay, **kw: (lambda: Timeboard('D', '01 Jan 2001', '09 Jan 2001', lay, **kw))  # noqa
        if what == 'layout':
            return [tbd(x) for x in (
                5, None, 'abc', Marker(each='W'), 1.5, True, '', 0, False)]
        if what == 'base-freq':
            return [lambda x=x, a=a: Timeboard(x, '01 Jan 2001', '09 Jan 2003', **a)
                    for x in ('B', 'C', 'BM', 'BQ', 'BA', 'XX', 'BH', 'SM', 'SMS', '5', '', 'MS',
                              'BMS', 'Q-FOO', '2B', 'WEEK', 'CBM', '-')
                    for a in ({'layout': [1, 0]}, {'layout': Organizer(marker='A', structure=[[1]])})]
        if what == 'marker-freq':
            return [lambda x=x, y=y: Timeboard(x, '01 Jan 2001', '09 Jan 2001',
                                               Organizer(marker=y, structure=[[1, 0]]))
                    for x in ('D', 'H') for y in ('BM', 'BQ', 'BA', 'XX', 'SM', 'Q-FOO', 'CBM', 'dd')]
        if what == 'amendments':
            return [tbd([1, 0], amendments=x) for x in (
                5, [('02 Jan 2001', 0)], 'abc', ['02 Jan 2001'], {'02 Jan 2001'}, True, [], (), '', 0, False, set())]
        if what == 'worktime-source':
            return [tbd([1, 0], worktime_source=x) for x in (
                'label', 'hours', '', 'Duration', None, 5, 'LABELS', 0, False, 'labels ', ('duration',))]
        b = ev['b']
        tb, n = self.tbs[b], len(self.boards[b]['S'])
        clock = self.clocks[b]
        t0, t1 = self.boards[b]['S'][0], self.boards[b]['E'][-1] - 1
        t0, t1 = clock.ts(t0), clock.ts(t1)
        per = ev['per']
        get = tb.get_interval
        if what == 'closed':
            return [lambda x=x, f=f: f(x) for x in ('1', '', '111', '12', '2', 11, '1 ', '01 ', 0, False)
                    for f in (lambda x: get((t0, t1), closed=x), lambda x: get(t0, length=1, closed=x),
                              lambda x: get(t0, period=per, closed=x), lambda x: get(closed=x))]
        if what == 'length-period':
            return [lambda: get(t0, length=1, period=per), lambda: tb(t0, length=1, period=per),
                    lambda: get((t0, t1), length=1, period=per),
                    lambda: get(t0, 1, per), lambda: get(t1, length=-1, period=per, closed='01')]
        if what == 'length':
            return [lambda x=x: get(t0, length=x) for x in (1.0, 1.5, '1', [1], 'D', (1, 2), '', 0.0)] + \
                [lambda: get(t0, 1.0), lambda: get(t1, length=-1.0), lambda: get(t0, t1)]
        if what == 'zero-length':
            return [lambda c=c: get(t, length=0, closed=c) for t in (t0, t1) for c in ('11', '00', '10')]
        if what == 'interval-ref':
            return [lambda x=x: get(x) for x in (
                t0, t0.isoformat(), t0.to_pydatetime(warn=False), (t0,), [], 5, Workshift(tb, 0),
                t0.to_datetime64(), {}, '', 0, False)]
        if what == 'bounds':
            return [lambda x=x: Interval(tb, x) for x in (0, None, 1.5, Workshift(tb, 0), {1, 2})]
        if what == 'bounds-short':
            return [lambda x=x: Interval(tb, x) for x in ((0,), [], (), [Workshift(tb, 0)])]
        if what == 'bound':
            return [lambda x=x: Interval(tb, x) for x in (
                ('0', 0), (0, '0'), (0.0, 0), (0, 0.5), (None, 0), (0, None), 'ab', (t0, t1),
                [Workshift(tb, 0), t1], (0, (0, 0)))]
        if what == 'location':
            return [lambda x=x: Workshift(tb, x) for x in ('0', 'a', 1.0, 0.5, None, t0)]
        if what == 'location-negative':
            return [lambda x=x: Workshift(tb, x) for x in (-1, -n)]
        if what == 'location-out':
            return [lambda x=x: Workshift(tb, x) for x in (n, n + 1, -n - 1, 10 ** 6)] + \
                [lambda x=x: Interval(tb, x) for x in (
                    (-1, 0), (0, n), (n, n), (-n, n - 1), (-1, -1), [0, 10 ** 6], (n, 0), (-2, -1))]
        if what == 'operand':
            w = Workshift(tb, ev['v'] % n)
            return [lambda: w + 1.0, lambda: w - 1.5, lambda: w + '1', lambda: w - w, lambda: w + w,
                    lambda: w + None, lambda: 1 + w, lambda: w - [1], lambda: w - '1']
        if what == 'schedule':
            return [lambda x=x, f=f: f(x) for x in (
                'on_duty', 0, 1, True, False, tb, '', [], lambda x: True, tb.default_selector) for f in (
                    lambda x: Workshift(tb, 0, schedule=x), lambda x: Interval(tb, (0, n - 1), schedule=x),
                    lambda x: tb.get_workshift(t0, schedule=x), lambda x: get(schedule=x),
                    lambda x: get((t0, t1), schedule=x), lambda x: get(t0, length=1, schedule=x))]
        v = self.obj(ev)
        if what == 'count-period':
            return [lambda x=x: v.count_periods(x) for x in (
                'B', 'BM', 'BQ', '2M', '3D', 'W-MON', 'Q-JAN', 'A-JUN', 'ms', 'foo', '', 'us', 'MS',
                'w', 'BA', '2W', 'N')]
        if what == 'selector':
            def bad(label):
                raise ValueError('a selector which fails')
            return [lambda: tb.add_schedule('zz', bad), lambda: tb.add_schedule('zz', selector=bad),
                    lambda: Timeboard('D', '01 Jan 2001', '09 Jan 2001', [1, 0], default_selector=bad)]
        if what == 'duty':
            if ev['o']['kind'] == 'ws':
                return [lambda x=x: v.rollforward(duty=x) for x in BADDUTY] + \
                    [lambda x=x: v.rollback(2, x) for x in BADDUTY] + \
                    [lambda x=x: v.worktime(duty=x) for x in BADDUTY + ('same', 'alt')]
            return [lambda x=x, f=f: f(x) for x in BADDUTY + ('same', 'alt') for f in (
                lambda x: v.count(duty=x), lambda x: v.nth(0, duty=x), lambda x: v.first(duty=x),
                lambda x: v.last(duty=x), lambda x: v.total_duration(duty=x),
                lambda x: v.worktime(duty=x), lambda x: list(v.workshifts(duty=x)))]
        raise RuntimeError(what)

    # endless iterators remember where they are, too
    RPS = {'rp': RememberingPattern, 'cycle': itertools.cycle,
           'gen': lambda x: (y for _ in itertools.count() for y in x),
           'obj': lambda x: Endless(x)}

    def do_rpnext(self, ev):
        rp = self.rps[ev['id']]
        if not isinstance(rp, RememberingPattern):
            return {'k': 'lab', 'v': canon(next(rp)), 'len': len(self.rplabels[ev['id']]),
                    'truth': True}
        x = next(rp) if ev['how'] == 'next' else next(iter(rp)) if ev['how'] == 'iter' else rp.next()
        return {'k': 'lab', 'v': canon(x), 'len': rp.length, 'truth': bool(rp)}

    def do_help(self, ev):
        from timeboard.calendars import calendarbase as cb
        clock = Clock(1440)
        if ev['fn'] == 'nth':
            dates = [(d['m'], d['w'], d['n']) + ((d['sh'],) if d['sh'] or d.get('shGiven') else ())
                     for d in ev['dates']]
            args = (ev['year'], dates if ev['cont'] == 'list' else tuple(dates))
            kw = {'errors': ev['errors']} if ev['errors'] != 'ignore' or ev.get('full') else {}
            if ev['label'] != 'n:0' or ev.get('full'):
                kw['label'] = uncanon(ev['label'])
            f = cb.nth_weekday_of_month
        elif ev['fn'] == 'easter':
            args = (ev['year'], ev['shifts'] if ev['cont'] == 'list' else tuple(ev['shifts']))
            kw = {}
            if ev['kind'] != 'west' or ev.get('full'):
                kw['easter_type'] = {'west': 'western', 'orth': 'orthodox'}[ev['kind']]
            if ev['label'] != 'n:0' or ev.get('full'):
                kw['label'] = uncanon(ev['label'])
            f = cb.from_easter
        else:
            args = ({clock.write(x[0] * 1440, fm): uncanon(x[1])
                     for x, fm in zip(ev['am'], ev['forms'])},)
            kw = {}
            if ev['how'] != 'nearest' or ev.get('full'):
                kw['how'] = ev['how']
            if ev['lab']:
                kw['label'] = uncanon(ev['lab'][0])
            if ev['wend'] != [5, 6] or ev.get('full'):
                kw['weekend'] = list(ev['wend'])
            f = cb.extend_weekends
        before = repr((args, kw))
        m = f(*args, **kw)
        v = sorted([clock.start(k), canon(x)] for k, x in m.items())
        if any(k % 1440 for k, _ in v):
            return {'k': 'odd', 'v': v, 'args': True}
        return {'k': 'map', 'v': [[k // 1440, x] for k, x in v],
                'args': repr((args, kw)) == before}

    def run(self, ev):
        if ev['ev'] == 'reset':
            self.reset()
            return ev
        if ev['ev'] == 'same':          # a query once more, perhaps on another board
            q = dict(ev['q'])
            self.run(q)
            ev['want'], ev['r'] = self.results[ev['ref']], strip(q['r'])
            return ev
        if ev['ev'] == 'rp':
            st = ev.get('style', 'int')
            self.rps[ev['id']] = self.RPS[ev.get('kind', 'rp')]([uncanon(x, st)
                                                                 for x in ev['labels']])
            self.rplabels[ev['id']] = ev['labels']
            return ev
        f = getattr(self, 'do_' + ev['ev'])
        self.before(ev)
        signal.setitimer(signal.ITIMER_REAL, OP_SECONDS)
        try:
            ev['r'] = f(ev)
        except Exception as e:                                    # noqa: B902
            ev['r'] = {'k': 'exc', 'e': exc_name(e), 'm': str(e)[:200]}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if 'qid' in ev:
            self.results[ev['qid']] = strip(ev['r'])
        return ev


class Bare(object):
    """an iterable which can nothing else"""
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


class Endless(object):
    def __init__(self, items):
        self.items, self.n = items, 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return self.items[(self.n - 1) % len(self.items)]

    next = __next__


def strip(r):
    return {k: v for k, v in r.items() if k != 'm'}


def repr_args(layout, am):
    """how the arguments of a timeboard look like (to see that they do not change)"""
    def show(x):
        if isinstance(x, Organizer):
            m = x.marker
            return ('org', None if m is None else (m.each, repr(m.at)), repr(x.marks),
                    show(x.structure))
        if isinstance(x, RememberingPattern):
            return ('rp', x.length, [x[i] for i in range(x.length)])
        if isinstance(x, (list, tuple, collections.deque, Bare)):
            return (type(x).__name__, [show(y) for y in x])
        return repr(x)
    return show(layout), repr(list(am.items()))
