"""Random sessions: boards of all kinds and queries aimed at their boundaries."""
import calendar
import datetime
import math

from tbdrive import Clock, truth_of, num_of, freq_str, PLAIN_OBJS, ITER_OBJS

F = lambda b, n=1, a=0: {'n': n, 'b': b, 'a': a}                   # noqa: E731
DAY0 = datetime.date(2000, 1, 1).toordinal()
LEN = {'S': 1.0 / 86400, 'T': 1.0 / 1440, 'H': 1.0 / 24, 'D': 1, 'W': 7, 'M': 30.4,
       'Q': 91.3, 'A': 365.2}
RANK = 'STHDWMQA'
CLOSED = ['11', '11', '11', '10', '01', '00']


def days(y, m, d):
    return datetime.date(y, m, d).toordinal() - DAY0


# lengths of patterns which look like calendar periods
PERIODIC = [7, 12, 13, 24, 28, 29, 30, 31, 48, 52, 53, 60, 90, 91, 92, 365, 366]


class Gen(object):
    wild = 0

    def __init__(self, rng, session, emit):
        self.r, self.s, self._emit = rng, session, emit
        self.n = 0
        self.reset()

    def emit(self, ev):
        self.s.run(ev)
        self._emit(ev)
        return ev

    def reset(self):
        self.bs = {}        # board id -> info
        self.rpids, self.rpkind = [], {}
        self.noids = {}
        self.emit({'ev': 'reset'})

    def new(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def pick(self, *weighted):
        """pick('x', 3, 'y', 1)"""
        vals, ws = weighted[::2], weighted[1::2]
        return self.r.choices(vals, ws)[0]

    def chance(self, p):
        return self.r.random() < p

    # --- frequencies ------------------------------------------------------------
    def anchored(self, b, n=1):
        r = self.r
        if b == 'W':
            a = 6 if self.chance(0.5) else r.randrange(7)
        elif b in 'QA':
            a = 12 if self.chance(0.5) else r.randint(1, 12)
        else:
            a = 0
        f = F(b, n, a)
        if (b == 'W' and a == 6 or b in 'QA' and a == 12) and self.chance(0.2):
            f['full'] = True                # W-SUN, Q-DEC, A-DEC
        return self.spell(f)

    def spell(self, f):
        """sometimes 1D, Y, min, w-sun instead of D, A, T, W-SUN"""
        if self.chance(0.08):
            f['sp'] = self.r.choice(['one', 'alt', 'low'])
        return f

    def base_freq(self, q):
        r = self.r
        if q == 86400:
            return self.spell(self.pick(F('S'), 3, F('S', 10), 1, F('S', 30), 1, F('T'), 2,
                                        F('H'), 1, F('D'), 1))
        k = self.pick('D', 10, 'H', 4, 'T', 2, 'W', 2, 'M', 2, 'Q', 1, 'A', 1, 'mult', 4)
        if k == 'mult':
            b = r.choice('THDWMQA' + 'HHHDD')
            n = {'T': [5, 15, 30, 90], 'H': [2, 3, 4, 6, 8, 12, 36], 'D': [2, 3, 5, 7, 10],
                 'W': [2, 4], 'M': [2, 3, 4, 6], 'Q': [2, 3], 'A': [2, 5]}[b]
            return self.anchored(b, r.choice(n))
        return self.anchored(k)

    def day0(self, q, near=None):
        """a day, often close to an edge of a calendar period"""
        r = self.r
        lo, hi = (1971, 2028) if q == 86400 else \
            self.pick((2000, 2030), 6, (1950, 2090), 3, (1800, 2200), 1)
        if near:
            lo, hi = near
        y = r.randint(lo, hi)
        k = r.random()
        if k < 0.3:
            d = days(y, r.randint(1, 12), r.randint(1, 28))
        elif k < 0.5:
            d = days(y, r.choice([1, 1, 2, 3, 4, 7, 10, 12]), 1) + r.randint(-3, 3)
        elif k < 0.65:
            d = days(y, 1, 1) + r.randint(-8, 8)
        elif k < 0.75:
            y -= y % 4
            y = max(y, lo + 1)
            d = days(y, 2, 28) + r.randint(-2, 2)
        elif k < 0.85:
            m = r.randint(1, 12)
            d = days(y, m, calendar.monthrange(y, m)[1]) - r.randint(0, 2)
        else:
            d = days(y, r.randint(1, 12), 1)
        return d

    # --- points in time -----------------------------------------------------------
    def form(self, q, t, sub=0):
        """a way to write down the point"""
        r = self.r
        if sub:
            return self.pick('ts', 3, 'np', 1) if sub % 1000 else \
                self.pick('ts', 3, 'np', 1, 'dt', 1, 'iso', 1)
        fs = ['ts', 'ts', 'dt', 'np', 'iso', 'text', 'us']
        if t % q == 0:
            fs += ['date', 'day', 'per:D', 'day']
            ts = datetime.date.fromordinal(DAY0 + int(t // q))
            if ts.day == 1:
                fs += ['per:M', 'per:M', 'ym']
                if ts.month == 1:
                    fs += ['per:A']
            if ts.weekday() == 0:
                fs += ['per:W']
        return r.choice(fs)

    def sub(self, q):
        ns = 86400 * 10 ** 9 // q
        return self.pick(0, 6, ns - 1, 1, 1, 1, self.r.randrange(ns), 1,
                         self.r.randrange(ns // 1000) * 1000, 1)

    def point(self, q, t, form=None, sub=None):
        if sub is None:
            sub = self.sub(q)
            if form is None and self.chance(0.04):
                form = 'own'
        p = {'t': t, 'sub': sub, 'form': form or self.form(q, t, sub)}
        return p

    # --- labels ---------------------------------------------------------------------
    iterlabs = ()

    def label_pool(self):
        r = self.r
        k = self.pick('01', 4, 'hours', 3, 'mix', 2, 'str', 2, 'many', 1, 'digits', 0.7,
                      'objs', 0.7)
        if k == 'objs':
            return r.sample(['n:0', 's:A', 'n:8'], r.randint(0, 2)) + \
                ['o:' + x for x in r.sample(sorted(PLAIN_OBJS), r.randint(1, 3))]
        if k == '01':
            return ['n:0', 'n:1']
        if k == 'hours':
            return ['n:0', 'n:8', 'n:15/2', 'n:4', 'n:1/4', 'n:12'][:r.randint(2, 6)]
        if k == 'str':
            return ['s:A', 's:B', 's:', 's:night']
        if k == 'digits':
            return r.sample(['n:0', 'n:8', 's:8', 's:0', 's:1.5', 's:', 'n:4'], 3)
        if k == 'many':
            return ['n:%d' % i for i in range(r.randint(3, 30))]
        return ['n:0', 'n:1', 's:A', 's:', 'n:-2', 'n:5/2', 's:off', 'n:100']

    def lab(self, pool):
        return self.r.choice(pool)

    def day_by_day(self):
        """calendar periods laid out by patterns about as long as they are"""
        r = self.r
        b, each, lens = r.choice([('D', 'M', (28, 29, 30, 31)), ('D', 'Q', (90, 91, 92)),
                                  ('D', 'A', (365, 366)), ('D', 'W', (6, 7, 8)),
                                  ('H', 'D', (23, 24, 25)), ('H', 'W', (167, 168)),
                                  ('H', 'M', (672, 696, 720, 744)), ('M', 'A', (11, 12, 13)),
                                  ('M', 'Q', (3, 4)), ('T', 'H', (59, 60, 61))])
        q = 1440
        f = self.anchored(b, 1)
        g = self.anchored(each, 1)
        k = min(lens)
        n = k * r.randint(2, 6) + r.randint(0, k)
        pool = self.label_pool()
        org = {'k': 'marker', 'each': g, 'how': 'none', 'at': [], 'kw': [], 'oid': self.new('o')}
        e = []
        for _ in range(self.pick(1, 5, 2, 2, 3, 1)):
            e.append({'k': 'pat', 'v': [self.lab(pool) for _ in range(r.choice(lens))]})
        org['st'] = {'rp': '', 'e': e}
        q, f, s, e = self.frame(q, f, n, big=0)
        return self.build(frame=(q, f, s, e), org=org, pool=pool, am=0, plain=False)

    def pattern(self, pool, empty=0.06):
        r = self.r
        if self.chance(empty):
            return []
        n = self.pick(1, 2, 2, 3, 3, 3, 4, 2, 5, 2, 7, 4, r.randint(6, 16), 2,
                      r.choice(PERIODIC), 0.3)
        return [self.lab(self.iterlabs if self.iterlabs and self.chance(0.3) else pool)
                for _ in range(n)]

    # --- organizers --------------------------------------------------------------------
    def each_for(self, f, wild=0.08):
        """a frequency of marker periods for base unit f"""
        r = self.r
        if self.chance(max(wild, self.wild)):
            g = self.anchored(r.choice(RANK[1:]), self.pick(1, 3, r.randint(2, 12), 1))
            if self.chance(0.3):
                g = self.anchored(f['b'], f['n'] * r.randint(1, 4))
            if self.chance(0.4) and g['b'] == f['b']:
                g['a'] = f['a']
            return g
        if f['n'] > 1:
            g = dict(f)
            g['n'] = f['n'] * r.choice([1, 2, 3, 4])
            return g
        i = RANK.index(f['b'])
        cands = [b for b in RANK[i:] if LEN[b] / LEN[f['b']] < 3000]
        if f['b'] == 'W':
            g = dict(f)
            g['n'] = self.pick(1, 1, 2, 2, 3, 1, 4, 1)
            return g
        if f['b'] in 'QA':
            b = r.choice(cands)
            g = F(b, 1, f['a'])
            if b != f['b'] and self.chance(0.6):
                g['a'] = (f['a'] - 1 + 3 * r.randrange(4)) % 12 + 1
            if self.chance(0.2):
                g['n'] = r.randint(2, 3)
            return g
        b = r.choice(cands + cands[1:3] * 2) if len(cands) > 1 else cands[0]
        n = 1 if self.chance(0.75) else r.randint(2, 5)
        return self.anchored(b, n)

    def offset(self, q, g, f):
        """an `at` element: (fields for the specification, kwargs)"""
        r = self.r
        kw, mo, d, t = {}, 0, 0, 0
        L = LEN[g['b']]
        day, hour = q, q // 24
        span = L * (1.25 if self.chance(0.3) else 0.95)
        sgn = -1 if self.chance(0.06) else 1
        ks = []
        if L > 29:
            ks += ['months', 'days', 'days']
        if L >= 5:
            ks += ['days', 'days', 'weeks']
        if L <= 40 and f['b'] in 'STH':
            ks += ['hours', 'hours']
        if L < 2 and f['b'] in 'ST':
            ks += ['minutes'] * 2
        if not ks:
            ks = ['hours'] if L >= 1 else ['minutes']
        if LEN[f['b']] >= 1 and L >= 1 and self.chance(0.1):
            ks += ['hours']
        for k in set(r.choice(ks) for _ in range(self.pick(1, 4, 2, 2, 3, 1))):
            if k == 'months':
                v = r.randint(0, max(1, int(span / 30)))
                mo += v * sgn
            elif k == 'days':
                v = r.randint(0, max(1, min(int(span), 400)))
                if 'months' in kw and self.chance(0.7):
                    v = r.randint(0, 30)
                d += v * sgn
            elif k == 'weeks':
                v = r.randint(0, max(1, int(span / 7)))
                d += 7 * v * sgn
            elif k == 'hours':
                v = r.randint(0, max(1, min(int(span * 24), 100)))
                t += v * hour * sgn
            else:
                v = r.randint(0, max(1, min(int(span * 1440), 1500)))
                t += v * (q // 1440) * sgn
            kw[k] = v * sgn
        return {'mo': mo, 'd': d, 't': t}, kw

    def marker(self, q, f, span_ticks, first, how=None):
        """{'k': 'marker', ...} without structure"""
        r = self.r
        how = how or self.pick('none', 8, 'start', 4, 'nth', 2, 'west', 1, 'orth', 1, 'pts', 1)
        if f['b'] not in 'STHD' and how not in ('none', 'pts', 'start'):
            how = 'none'
        if how in ('nth', 'west', 'orth') and (f['n'] > 1 or f['b'] != 'D'):
            how = 'start' if f['n'] == 1 else 'none'
        if f['n'] > 1:
            how = 'none'
        if how == 'none':
            for _ in range(20):
                g = self.each_for(f)
                if span_ticks / (LEN[g['b']] * g['n'] * q) < 3000 and \
                        LEN[g['b']] * g['n'] / LEN[f['b']] < 50000:
                    break
            og = {'k': 'marker', 'each': g, 'how': 'none', 'at': [],
                  'wrap': self.pick('', 3, 'marker', 2, 'empty', 1)}
            return og
        if how == 'pts':
            g = self.each_for(f, 0)
            if f['n'] > 1:
                g = dict(f)
            m = r.randint(1, 8)
            lo, hi = first - span_ticks // 3, first + span_ticks + span_ticks // 3
            at = sorted(self.clamp(q, r.randint(int(lo), int(hi))) for _ in range(m))
            return {'k': 'marker', 'each': g, 'how': 'pts', 'at': at}
        if how == 'start':
            for _ in range(20):
                g = self.each_for(f, 0)
                if g['n'] > 1:
                    g = dict(g)
                    g['n'] = 1
                if span_ticks / (LEN[g['b']] * q) < 500 and LEN[g['b']] / LEN[f['b']] < 50000:
                    break
            if LEN[g['b']] <= LEN[f['b']]:
                g = {'S': F('T'), 'T': F('H'), 'H': F('D'), 'D': F('W', 1, 6), 'M': F('A', 1, 12),
                     'W': dict(f), 'Q': F('A', 1, f['a']), 'A': dict(f)}[f['b']]
            ats = [self.offset(q, g, f) for _ in range(self.pick(1, 3, 2, 3, 3, 2, 4, 1))]
            return {'k': 'marker', 'each': g, 'how': 'start', 'at': [a for a, _ in ats],
                    'kw': [k for _, k in ats], 'dfltHow': self.chance(0.5),
                    'user': self.chance(0.15)}
        if how == 'nth':
            g = self.anchored(self.pick('M', 3, 'Q', 3, 'A', 5))
            at, kw = [], []
            mm = {'M': 1, 'Q': 3, 'A': 12}[g['b']]
            for _ in range(self.pick(1, 3, 2, 3, 3, 1)):
                month = r.randint(1, mm) if self.chance(0.93) else r.randint(1, 12)
                week = r.choice([1, 2, 3, 4, 5, -1, -2, -3, -4, -5])
                wd = r.randint(1, 7)
                sh = 0 if self.chance(0.6) else r.choice([1, -1, 2, -3, 5, 7, -10, 30, -25])
                at.append({'month': month, 'week': week, 'weekday': wd, 'shift': sh})
                k = {'month': month, 'week': week, 'weekday': wd}
                if sh or self.chance(0.2):
                    k['shift'] = sh
                kw.append(k)
            return {'k': 'marker', 'each': g, 'how': 'nth', 'at': at, 'kw': kw}
        g = self.pick(F('A', 1, 12), 5, F('A', 1, r.choice([5, 6, 7, 8, 9, 10, 11])), 1,
                      F('Q', 1, 12), 1, F('M'), 1)
        at, kw = [], []
        for _ in range(self.pick(1, 3, 2, 3, 3, 1)):
            d = r.choice([0, 0, 1, -2, 39, 49, 60, -46, r.randint(-120, 260)])
            if f['b'] in 'HT' and self.chance(0.3):
                h = r.randint(0, 23)
                k = {'days': abs(d), 'hours': h}
                at.append({'mo': 0, 'd': abs(d), 't': h * q // 24})
            else:
                k = {'shift': d} if self.chance(0.6) else {'days': d}
                at.append({'mo': 0, 'd': d, 't': 0})
            kw.append(k)
        return {'k': 'marker', 'each': g, 'how': how, 'at': at, 'kw': kw}

    def marks(self, q, f, span_ticks, first, unit):
        r = self.r
        n = self.pick(0, 2, 1, 3, 2, 3, 3, 2, r.randint(4, 12), 2)
        pts = []
        for _ in range(n):
            k = r.random()
            if k < 0.5:
                t = first + r.randrange(max(1, int(span_ticks)))
            elif k < 0.7 and unit:
                t = unit(r)
            elif k < 0.8 and pts:
                t = r.choice(pts)['t'] + self.pick(0, 3, r.randint(-2, 2), 1)
            elif k < 0.9:
                t = first + span_ticks + r.randint(-3, 3)
            else:
                t = first + r.randint(int(-span_ticks) // 2 - 3, int(span_ticks) * 3 // 2 + 3)
            if self.chance(0.08):        # the very last instant of a unit or of the span
                t = unit(r) - 1 if unit and self.chance(0.6) else first + span_ticks - 1
                pts.append(self.point(q, self.clamp(q, int(t)), sub=86400 * 10 ** 9 // q - 1))
            else:
                pts.append(self.point(q, self.clamp(q, int(t))))
        if self.chance(0.5):
            pts.sort(key=lambda p: p['t'])
        return {'k': 'marks', 'pts': [p['t'] for p in pts], 'mk': pts, 'each': F('D'),
                'how': 'none', 'at': [], 'single': self.chance(0.3),
                'mcont': self.pick('list', 6, 'tuple', 1, 'index', 1, 'np', 0.6, 'deque', 0.4, 'bare', 0.4,
                                   'series', 0.6, 'set', 0.6, 'frozen', 0.4, 'keys', 0.4)}

    def structure(self, q, f, pool, depth, ctx, rps=0.0, orgs=0.25, labs=0.35):
        r = self.r
        if rps and self.rpids and self.chance(rps * 0.35):
            rid = self.nonempty_rp()
            if rid:
                return {'rp': rid, 'e': []}
        if self.chance(0.03):
            return {'rp': '', 'e': []}
        e = []
        for _ in range(self.pick(1, 4, 2, 4, 3, 3, 4, 1, r.randint(5, 8), 1)):
            k = r.random()
            if e and k < 0.08:
                e.append(r.choice(e))
            elif k < 0.08 + labs:
                e.append({'k': 'lab', 'v': self.lab(pool)})
            elif depth > 0 and k < 0.08 + labs + orgs:
                e.append({'k': 'org', 'v': self.organizer(q, f, pool, depth - 1, ctx, rps, orgs, labs)})
            elif rps and self.rpids and k < 0.08 + labs + orgs + rps:
                e.append({'k': 'rp', 'v': r.choice(self.rpids)})
            else:
                e.append({'k': 'pat', 'v': self.pattern(pool)})
        return {'rp': '', 'e': e}

    def rp_next(self):
        self.emit({'ev': 'rpnext', 'id': self.r.choice(self.rpids),
                   'how': self.pick('next', 2, 'iter', 1, 'method', 1)})

    def nonempty_rp(self):
        c = [x for x in self.rpids if self.rplen[x] > 0]
        return self.r.choice(c) if c else None

    def organizer(self, q, f, pool, depth, ctx, rps=0.0, orgs=0.25, labs=0.35, kinds=None):
        kind = kinds or ctx.get('kinds')
        k = self.pick(*kind) if kind else self.pick('none', 6, 'marks', 4, 'start', 2, 'nth', 1,
                                                    'west', 1, 'orth', 1, 'pts', 1)
        if k == 'marks':
            og = self.marks(q, f, ctx['span'], ctx['first'], ctx.get('unit'))
        else:
            og = self.marker(q, f, ctx['span'], ctx['first'], k)
        og['st'] = self.structure(q, f, pool, depth, ctx, rps, orgs, labs)
        og['oid'] = self.new('o')
        return og

    def new_rp(self, pool):
        i = self.new('rp')
        ls = self.pattern(pool, 0.04)
        kind = self.pick('rp', 5, 'cycle', 1, 'gen', 1, 'obj', 1) if ls else 'rp'
        self.emit({'ev': 'rp', 'id': i, 'labels': ls, 'kind': kind})
        self.rpkind[i] = kind
        self.rpids.append(i)
        if not hasattr(self, 'rplen'):
            self.rplen = {}
        self.rplen[i] = len(ls)
        return i

    # --- boards ---------------------------------------------------------------------------
    def frame(self, q=None, f=None, n=None, near=None, big=0.04):
        """(q, f, first tick, start tick, end tick)"""
        r = self.r
        q = q or self.pick(1440, 4, 86400, 1)
        f = f or self.base_freq(q)
        unit = LEN[f['b']] * f['n'] * q
        if n is None:
            n = self.pick(1, 1, 2, 1, r.randint(2, 12), 4, r.randint(5, 40), 5,
                          r.randint(20, 120), 3)
            if self.chance(big):
                n = r.randint(150, 500)
        if f['b'] in 'QA' or (f['b'] in 'MW' and f['n'] > 1):
            n = min(n, max(1, int(110 * 365 / (LEN[f['b']] * f['n']))))
        s = self.day0(q, near) * q + (0 if self.chance(0.4) else r.randrange(q))
        if q == 86400:
            lo, hi = days(1970, 1, 2) * q, days(2032, 12, 30) * q
        else:
            lo, hi = days(1700, 1, 1) * q, days(2240, 12, 30) * q
        if f['b'] in 'ST' and self.chance(0.5):
            s = self.day0(q, near) * q + r.randint(-60, 60)
        e = s + int((n - 1) * unit) + (r.randrange(max(1, int(unit))) if self.chance(0.5) else 0)
        return q, f, s, max(min(e, hi), lo)

    def build(self, q=None, f=None, n=None, org=None, near=None, depth=None, kinds=None,
              rps=0.0, pool=None, am=0.3, tag='', refs=None, wts=None, plain=None,
              labs=0.35, orgs=0.25, frame=None, big=0.04, nulls=0.08, labonly=False,
              each=None):
        r = self.r
        q, f, s, e = frame or self.frame(q, f, n, near, big)
        pool = pool or self.label_pool()
        objs = any(x.startswith('o:') for x in pool)
        if objs and wts is None and self.chance(0.7):
            wts = 'duration'
        self.iterlabs = ['o:' + x for x in sorted(ITER_OBJS)] if objs and wts == 'duration' else []
        clock = Clock(q)
        span = max(1, e - s)
        unit = LEN[f['b']] * f['n'] * q
        if e - s > 75000 * unit:            # no more than the driver reports
            e = s
        ctx = {'span': span, 'first': s, 'kinds': kinds,
               'unit': lambda r: s - s % max(1, int(unit)) + int(unit) * r.randrange(
                   max(1, int(span / unit) + 1)) + r.randint(-1, 1)}
        ev = {'ev': 'build', 'b': self.new('b'), 'sid': self.new('s'), 'q': q, 'f': f,
              's': s, 'e': e, 'mode': 'plain', 'twin': '', 'tag': tag,
              'sp': self.fpoint(q, s, f), 'ep': self.fpoint(q, e, f),
              'style': self.pick('int', 5, 'float', 1, 'np', 1, 'bool', 1),
              'cont': self.pick('list', 6, 'tuple', 1, 'np', 1, 'deque', 0.4, 'bare', 0.6, 'series', 0.4)}
        ev['s'], ev['e'] = ev['sp']['t'], ev['ep']['t']
        isplain = org is None and (self.chance(0.25) if plain is None else plain)
        if isplain:
            ev['plain'] = True
            ev['org'] = {'k': 'marks', 'pts': [], 'mk': [], 'each': F('D'), 'how': 'none', 'at': [],
                         'st': {'rp': '', 'e': [{'k': 'pat', 'v': self.pattern(pool)}]}}
            ev['once'] = self.chance(0.08)
            if rps and self.rpids and self.chance(0.5):
                ev['org']['st']['e'] = [{'k': 'rp', 'v': r.choice(self.rpids)}]
        elif org is not None:
            ev['org'] = org
        else:
            d = self.pick(0, 5, 1, 3, 2, 1) if depth is None else depth
            ev['org'] = self.organizer(q, f, pool, d, ctx, rps, orgs, labs)
            if labonly:                 # few but large workshifts
                ev['org']['st'] = {'rp': '', 'e': [{'k': 'lab', 'v': self.lab(pool)}
                                                   for _ in range(r.randint(1, 4))]}
                if ev['org']['k'] == 'marker':
                    ev['org']['each'] = self.anchored(each or self.pick('W', 1, 'M', 3, 'A', 2))
        null = False
        if self.chance(1 - nulls):
            ev['deflab'], ev['deflabGiven'] = self.lab(pool), True
        else:
            ev['deflab'], ev['deflabGiven'] = 'null', self.chance(0.5)
            null = True
        keys, vals = [], []
        if self.chance(am):
            for _ in range(r.randint(1, 4)):
                k = s + r.randint(-2 * int(unit), int(span + 2 * unit)) if self.chance(0.8) else \
                    s + r.randint(int(-span), int(span) * 2)
                keys.append(self.point(q, self.clamp(q, k)))
                vals.append(self.lab(pool + ['n:0'] + self.iterlabs))
        self.fill_am(ev, keys, vals)
        labs_used = set(pool) | set(self.iterlabs) | set(vals) | {ev['deflab'], 'n:0', 'n:8', 's:x', 'null'} | \
            set(x for i in self.rpids for x in self.rplabels(i))
        ev['labs'] = sorted(labs_used)
        if null or self.chance(0.4):
            ev['selkind'] = self.pick('bool', 3, 'int', 1, 'np', 1, 'float', 1, 'word', 1)
            ev['on'] = [x for x in ev['labs'] if self.chance(0.5)]
        else:
            ev['selkind'] = 'default'
            ev['on'] = [x for x in ev['labs'] if truth_of(x)]
        ev['name'] = 'on_duty' if self.chance(0.8) else r.choice(['main', 'x y', '7', ' x', '', 'On_Duty'])
        ev['nameGiven'] = self.chance(0.2)
        ev['ref'] = refs or self.pick('start', 3, 'end', 2)
        ev['wts'] = wts or self.pick('duration', 2, 'labels', 1)
        if null and ev['wts'] == 'labels':
            ev['wts'] = 'duration'
        if ev['wts'] == 'labels':
            ev['labs'] = [x for x in ev['labs'] if x != 'null']
            ev['on'] = [x for x in ev['on'] if x != 'null']
        ev['num'] = {x: num_of(x) for x in ev['labs']}
        self.iterlabs = []
        ev['amEmpty'] = self.chance(0.2)
        ev['amcont'] = self.pick('dict', 6, 'ordered', 1, 'proxy', 1, 'user', 1)
        self.emit(ev)
        return self.register(ev)

    def rplabels(self, i):
        return self.s.rplabels[i]

    def fill_am(self, ev, keys, vals):
        seen, k2, v2 = set(), [], []
        for p, v in zip(keys, vals):          # Python keys are unique
            val = self.s_point_key(ev['q'], p)
            if val in seen:
                continue
            seen.add(val)
            k2.append(p)
            v2.append(v)
        ev['am'] = {'k': [p['t'] for p in k2], 'v': v2, 'p': k2}

    def s_point_key(self, q, p):
        return (p['t'], p['sub'])

    def fpoint(self, q, t, f):
        """a bound of the frame"""
        r = self.r
        sub = self.sub(q)
        form = self.form(q, t, sub)
        if form.startswith('per:'):
            form = 'per:' + freq_str(f) if f['n'] == 1 and self.chance(0.5) and t >= 0 else 'ts'
            if form != 'ts' and f['b'] in 'STHD' and q // {'D': 1, 'H': 24, 'T': 1440,
                                                        'S': 86400}[f['b']] > 1 and t % q:
                form = 'ts'
        if form == 'np':
            form = 'ts'
        if form == 'ym':
            form = 'iso'
        return {'t': t, 'sub': sub, 'form': form}

    def register(self, ev):
        if ev['r']['k'] != 'board' or not ev['r']['S']:
            return None
        info = {'b': ev['b'], 'q': ev['q'], 'f': ev['f'], 'o': ev['r'], 'dflt': ev['sid'],
                'N': len(ev['r']['S']), 'ref': ev['ref'], 'sids': [ev['sid']],
                'live': {ev['name']: ev['sid']}, 'labs': ev['labs'], 'ev': ev,
                'names': {ev['sid']: ev['name']}, 'adds': {}, 'twins': {}}
        self.bs[ev['b']] = info
        return info

    # --- schedules -------------------------------------------------------------------------
    def add(self, bi, name=None):
        r = self.r
        name = name or r.choice(['a', 'b', 'c', 'night', 'on_duty', '12'] if self.chance(0.7) else
                                ['A', ' b', 'b ', ' ', '', 'on duty', '\u0441\u043c\u0435\u043d\u0430', '-1', '0', 'a.b'])
        present = [x for x in bi['labs'] if x in set(bi['o']['L'])]
        k = self.pick('rand', 6, 'none', 1, 'all', 1, 'one', 2)
        on = [x for x in bi['labs'] if self.chance(0.5)]
        if k == 'none':
            on = []
        elif k == 'all':
            on = list(bi['labs'])
        elif k == 'one' and present:
            on = [r.choice(present)]
        ev = {'ev': 'add', 'b': bi['b'], 'sid': self.new('s'), 'name': name, 'on': on,
              'selkind': self.pick('bool', 3, 'int', 1, 'np', 1, 'float', 1, 'word', 1),
              'nameInt': name.isdigit() and self.chance(0.5)}
        self.emit(ev)
        if ev['r']['k'] != 'exc':
            bi['sids'].append(ev['sid'])
            bi['live'][name] = ev['sid']
            bi['names'][ev['sid']] = name
            bi['adds'][ev['sid']] = ev
        return ev

    def drop(self, bi, sid=None):
        sid = sid or self.r.choice(bi['sids'])
        ev = {'ev': 'drop', 'b': bi['b'], 'sid': sid}
        self.emit(ev)
        if ev['r']['k'] != 'exc':
            bi['live'].pop(bi['names'][sid], None)
        return ev

    def churn(self, bi):
        """another schedule under a name which has been in use"""
        old = [s for m, s in bi['live'].items() if s != bi['dflt']]
        if old:
            sid = self.r.choice(old)
            name = bi['names'][sid]
            self.drop(bi, sid)
            self.add(bi, name)
        else:
            self.add(bi)

    # --- parts of queries ----------------------------------------------------------------------
    def pos(self, bi):
        r, N = self.r, bi['N']
        if self.chance(0.2):                    # some places get more attention
            return bi.setdefault('hotpos', r.randint(1, N))
        return self.pick(1, 2, N, 2, r.randint(1, N), 8)

    def span(self, bi):
        if self.chance(0.4):
            return list(bi.setdefault('hot', self.some_span(bi)))
        return self.some_span(bi)

    def some_span(self, bi):
        r, N = self.r, bi['N']
        a = self.pos(bi)
        k = r.random()
        if k < 0.15:
            b = a
        elif k < 0.5:
            b = a + r.randint(0, 6)
        else:
            b = self.pos(bi)
        b = min(b, N)
        return [min(a, b), max(a, b)]

    def sid(self, bi):
        return bi['dflt'] if self.chance(0.6) else self.r.choice(bi['sids'])

    def x(self, bi):
        return '' if self.chance(0.6) else self.r.choice(bi['sids'])

    def duty(self, bad=0.02, ws=False):
        if self.chance(bad):
            return self.r.choice(['On', '', 'both'] + ([] if ws else ['same', 'alt']))
        return self.pick(*(['on', 4, 'off', 3, 'any', 2] + (['same', 2, 'alt', 2] if ws else [])))

    def tick(self, bi, far=0.1):
        """a point in time around the board, mostly at edges of workshifts"""
        r, o = self.r, bi['o']
        k = r.random()
        if k < far:
            L = o['E'][-1] - o['S'][0]
            t = r.choice([o['S'][0] - 1, o['E'][-1], o['S'][0] - r.randint(1, L + 5),
                          o['E'][-1] + r.randint(0, L + 5), o['S'][0] - r.randint(1, 3),
                          o['E'][-1] + r.randint(0, 3)])
        elif k < 0.55:
            p = self.pos(bi) - 1
            t = r.choice([o['S'][p], o['E'][p] - 1, o['S'][p] + 1, o['S'][p] - 1, o['E'][p]])
        else:
            p = self.pos(bi) - 1
            t = r.randrange(o['S'][p], o['E'][p]) if o['E'][p] > o['S'][p] else o['S'][p]
        return self.clamp(bi['q'], t)

    @staticmethod
    def clamp(q, t):
        """points which can be represented both by the library and in a trace"""
        lo, hi = (1934, 2066) if q == 86400 else (1690, 2250)
        return max(min(t, days(hi, 1, 1) * q), days(lo, 1, 1) * q)

    def tpoint(self, bi, far=0.1):
        r = self.r
        if self.chance(0.06):
            p = self.pos(bi)
            o = bi['o']
            t = o['E'][p - 1] - 1 if bi['ref'] == 'end' else o['S'][p - 1]
            return {'t': t, 'form': 'ws:%d' % p, 'sub': 0}
        return self.point(bi['q'], self.tick(bi, far))

    def q(self, bi, op, a, iv=None, kind='ivl', x=None, s=None, o=None):
        s = s or self.sid(bi)
        if o is None:
            o = {'iv': iv if iv is not None else [], 's': s, 'kind': kind,
                 'givs': self.chance(0.5)}
        ev = {'ev': 'q', 'op': op, 'b': bi['b'], 'o': o, 'dflt': bi['dflt'],
              'x': self.x(bi) if x is None else x, 'a': a, 'fresh': self.chance(0.3),
              'qid': self.new('q')}
        return self.emit(ev)

    def again(self, e, what='repeat', **changes):
        """the same query once more"""
        q = {k: v for k, v in e.items() if k not in ('r', 'qid')}
        q.update(changes)
        self.emit({'ev': 'same', 'what': what, 'ref': e['qid'], 'q': q})

    def rebuild(self, bi, mode='rebuild', **changes):
        ev = {k: v for k, v in bi['ev'].items() if k != 'r'}
        ev.update(b=self.new('b'), sid=self.new('s'), mode=mode, twin=bi['b'])
        ev.update(changes)
        self.emit(ev)
        return self.register(ev)

    def ws_obj(self, bi):
        p = self.pos(bi)
        return [p, p]

    def ivl_obj(self, bi, void=0.06):
        """an interval object, sometimes a void one"""
        r, N = self.r, bi['N']
        if N >= 2 and self.chance(void):
            a = sorted(r.sample(range(1, N + 1), 2))
            v = [r.randint(1, a[0]), a[0], a[1], r.randint(a[1], N)]
            if self.chance(0.5):
                v = v[2:] + v[:2]
            return {'iv': [], 's': self.sid(bi), 'kind': 'ivl', 'via': v, 'givs': self.chance(0.5)}
        return {'iv': self.span(bi), 's': self.sid(bi), 'kind': 'ivl', 'givs': self.chance(0.5)}

    def period(self, bi, mult=0.15, fine=0.1):
        """a frequency for an interval period or period counting"""
        r = self.r
        o = bi['o']
        span = (o['E'][-1] - o['S'][0]) / bi['q']
        av = span / bi['N']
        lo = RANK.index('S') if bi['q'] == 86400 else RANK.index('T')
        c = [b for b in RANK[lo:] if av * (0.02 if self.chance(fine) else 0.5) <= LEN[b] <= span * 3]
        if not c:
            c = [b for b in RANK[lo:] if LEN[b] >= av][:1] or ['A']
        b = r.choice(c)
        return self.anchored(b, r.randint(2, 5) if self.chance(mult) else 1)

    # --- queries --------------------------------------------------------------------------------
    def q_locate(self, bi, far=0.15):
        p = self.tpoint(bi, far)
        if self.chance(0.35):
            self.q(bi, 'call1', p, x='', s=bi['dflt'])
        else:
            self.q(bi, 'locate', p, s=bi['dflt'])

    def q_view(self, bi):
        self.q(bi, 'view', {'z': 0}, self.ws_obj(bi), 'ws', x='')

    def q_wsat(self, bi):
        p = self.pick(self.pos(bi), 4, bi['N'] + 1, 1, bi['N'] + self.r.randint(1, 9), 1)
        self.q(bi, 'wsat', {'p': p, 'how': self.pick('int', 2, 'np', 1)}, s=bi['dflt'])

    def q_roll(self, bi, bad=0.02):
        r, N = self.r, bi['N']
        how = self.pick('full', 3, 'short', 3, 'pos', 1, 'op', 1)
        n = self.pick(0, 3, 1, 2, -1, 2, r.randint(-4, 6), 4, r.randint(-N - 2, N + 2), 2,
                      r.choice([100, -100]), 0.3)
        a = {'n': n, 'duty': self.duty(bad, True), 'fwd': self.chance(0.5), 'how': how}
        if self.chance(0.15):
            a['np'] = True
        p = self.ws_obj(bi)
        if self.chance(0.5):            # towards where there is room
            a['fwd'] = (p[0] < N / 2) == (n >= 0)
        x = None
        if how == 'op':
            a['duty'], x = 'on', ''
        self.q(bi, 'roll', a, p, 'ws', x=x)

    def q_duty(self, bi):
        self.q(bi, 'duty', {'on': self.chance(0.5)}, self.ws_obj(bi), 'ws')

    def q_sched(self, bi):
        self.q(bi, 'sched', {'z': 0}, self.ws_obj(bi), 'ws', x='')

    def q_schws(self, bi):
        self.q(bi, 'schws', {'z': 0}, self.ws_obj(bi), 'ws', x='')

    def q_select(self, bi):
        self.q(bi, 'select', {'z': 0}, self.ws_obj(bi), 'ws', x='')

    def q_wswork(self, bi):
        self.q(bi, 'wswork', {'duty': self.duty(), 'dutyGiven': self.chance(0.3)},
               self.ws_obj(bi), 'ws')

    def q_ivlpts(self, bi):
        r = self.r
        far = self.pick(0.05, 3, 0.4, 2)
        p0, p1 = self.tpoint(bi, far), self.tpoint(bi, far)
        if p0['t'] > p1['t'] and self.chance(0.8):
            p0, p1 = p1, p0
        if self.chance(0.12):
            p1 = self.point(bi['q'], p0['t'])
        a = {'closed': r.choice(CLOSED), 'forms': [p0['form'], p1['form']],
             'subs': [p0['sub'], p1['sub']], 't0': [p0['t']], 't1': [p1['t']],
             'open': [r.choice(['none', 'nan', 'nat']) for _ in '12'],
             'how': self.pick('get', 2, 'call', 1)}
        k = r.random()
        if k < 0.1:
            a['t0'] = []
        elif k < 0.2:
            a['t1'] = []
        elif k < 0.25:
            a['t0'] = a['t1'] = []
            if self.chance(0.7):        # no reference at all, or one thing in place of both
                a['open'] = [r.choice(['absent', 'absent', 'null:none', 'null:nan', 'null:nat'])] * 2
        if a['how'] == 'call' and a['closed'] == '11':
            a['how'] = 'get'
        self.q(bi, 'ivlpts', a, s=bi['dflt'])

    def q_ivllen(self, bi):
        r, N = self.r, bi['N']
        a = self.tpoint(bi, 0.08)
        a['n'] = self.pick(1, 1, -1, 1, 0, 0.3, r.randint(-6, 8), 4, r.randint(-N - 1, N + 1), 3,
                           N, 0.5, -N, 0.5)
        a['closed'] = r.choice(CLOSED)
        a['how'] = self.pick('get', 2, 'call', 1)
        self.q(bi, 'ivllen', a, s=bi['dflt'])

    def q_ivlper(self, bi):
        r = self.r
        g = self.period(bi, fine=0.3)
        t = self.tick(bi, 0.2)
        if self.chance(0.2):            # periods at the edges of the board
            L = int(LEN[g['b']] * g['n'] * bi['q'])
            o = bi['o']
            t = r.choice([o['S'][0], o['E'][-1]]) + r.randint(-L - 1, L + 1)
            t = self.clamp(bi['q'], t)
        a = self.tpoint(bi) if self.chance(0.08) else self.point(bi['q'], t)
        if a['form'].startswith('per:'):
            a['form'] = 'ts'
        a['g'] = g
        a['clip'] = self.chance(0.65)
        a['closed'] = r.choice(CLOSED)
        a['how'] = self.pick('get', 3, 'call', 1, 'period', 2)
        self.q(bi, 'ivlper', a, s=bi['dflt'])

    def q_ivlpos(self, bi):
        r, N = self.r, bi['N']
        iv = self.span(bi)
        if self.chance(0.1):
            iv.reverse()
        how = self.pick('int', 3, 'ws', 1, 'mix', 1)
        if self.chance(0.12):
            iv[r.randrange(2)] = r.choice([0, N + 1, N + 5, -3])
            how = 'int'
        self.q(bi, 'ivlpos', {'p0': iv[0], 'p1': iv[1], 'how': how}, s=bi['dflt'])

    def q_bounds(self, bi):
        how = self.pick('get', 1, 'none', 1, 'call', 1)
        self.q(bi, 'bounds', {'how': how}, s=bi['dflt'])

    def q_iview(self, bi):
        self.q(bi, 'iview', {'z': 0}, o=self.ivl_obj(bi), x='')

    def q_nth(self, bi):
        r = self.r
        o = self.ivl_obj(bi)
        L = o['iv'][1] - o['iv'][0] + 1 if o['iv'] else 1
        how = self.pick('nth', 4, 'first', 1, 'last', 1)
        n = {'first': 0, 'last': -1}.get(how, self.pick(0, 1, -1, 1, r.randint(-L - 1, L + 1), 5,
                                                        r.randint(-3, 3), 3))
        self.q(bi, 'nth', {'n': n, 'duty': self.duty(), 'how': how,
                           'dutyGiven': self.chance(0.3), 'np': self.chance(0.15)}, o=o)

    def q_count(self, bi):
        self.q(bi, 'count', {'duty': self.duty(), 'dutyGiven': self.chance(0.3)}, o=self.ivl_obj(bi))

    def q_list(self, bi):
        o = self.ivl_obj(bi)
        if o['iv'] and o['iv'][1] - o['iv'][0] > 60:
            o['iv'][1] = o['iv'][0] + 60
        if self.chance(0.3):
            self.q(bi, 'list', {'duty': 'any', 'how': 'iter'}, o=o, x='')
        else:
            self.q(bi, 'list', {'duty': self.duty(), 'how': 'ws',
                                'dutyGiven': self.chance(0.3)}, o=o)

    def q_len(self, bi):
        self.q(bi, 'len', {'how': self.pick('len', 1, 'prop', 1)}, o=self.ivl_obj(bi), x='')

    def q_dur(self, bi):
        self.q(bi, 'dur', {'duty': self.duty(), 'dutyGiven': self.chance(0.3)}, o=self.ivl_obj(bi))

    def q_work(self, bi):
        self.q(bi, 'work', {'duty': self.duty(), 'dutyGiven': self.chance(0.3)}, o=self.ivl_obj(bi))

    def q_overlap(self, bi):
        o, j = self.ivl_obj(bi, 0.12), self.ivl_obj(bi, 0.12)
        how = self.pick('op', 1, 'call', 2)
        self.q(bi, 'overlap', {'jv': j['iv'], 'j': j, 'how': how}, o=o,
               x='' if how == 'op' else None)

    def q_portion(self, bi):
        o, j = self.ivl_obj(bi, 0.08), self.ivl_obj(bi, 0.08)
        how = self.pick('op', 1, 'call', 3)
        self.q(bi, 'portion', {'jv': j['iv'], 'j': j, 'how': how,
                               'duty': 'on' if how == 'op' else self.duty(0),
                               'dutyGiven': self.chance(0.3)},
               o=o, x='' if how == 'op' else None)

    def q_cper(self, bi):
        o = self.ivl_obj(bi, 0.02)
        for _ in range(10):
            g = self.period(bi, 0, 0.15)
            # count_periods knows unanchored periods only
            g.pop('full', None)
            g.pop('sp', None)
            g['a'] = {'W': 6, 'Q': 12, 'A': 12}.get(g['b'], 0)
            iv = o['iv']
            if not iv or (bi['o']['E'][iv[1] - 1] - bi['o']['S'][iv[0] - 1]) / bi['q'] / LEN[g['b']] < 60:
                break
        else:
            return
        self.q(bi, 'cper', {'g': g, 'duty': self.duty(0.01), 'alias': self.chance(0.3),
                            'dutyGiven': self.chance(0.3)}, o=o)

    def q_table(self, bi, again=False):
        N = bi['N']
        how = self.pick('part', 3, 'ivl', 3, 'all', 1, 'from', 1, 'to', 1)
        lo, hi = self.span(bi)
        if hi - lo > 40:
            hi = lo + 40
        if how in ('all', 'from') and N > 60 or how == 'to' and hi > 60:
            how = 'part'
        if how == 'all':
            lo, hi = 1, N
        elif how == 'from':
            lo, hi = max(lo, N - 40), N
        elif how == 'to':
            lo = 1
        elif how == 'part' and self.chance(0.1):
            if self.chance(0.5):
                hi = N + self.r.randint(1, 3)
            else:
                lo = -self.r.randint(0, 3)
        ev = {'ev': 'table', 'b': bi['b'], 'lo': lo, 'hi': hi, 'how': how}
        if again:
            ev['qid'] = self.new('q')
        self.emit(ev)
        if again:
            self.again(ev)

    def snap(self, bi):
        self.emit({'ev': 'snap', 'b': bi['b']})

    def iter_start(self, bi):
        r = self.r
        o = self.ivl_obj(bi, 0)
        how = self.pick('ws', 4, 'iter', 2, 'self', 1)
        i = self.new('it')
        ev = {'ev': 'iter', 'b': bi['b'], 'o': o, 'dflt': bi['dflt'],
              'fresh': self.chance(0.3), 'x': '' if how != 'ws' else self.x(bi),
              'a': {'id': i, 'how': how, 'duty': 'any' if how != 'ws' else self.duty(0)}}
        self.emit(ev)
        if how == 'self' and ev['r']['k'] != 'exc' and self.chance(0.5):
            j = self.new('it')
            self.emit(dict({k: v for k, v in ev.items() if k != 'r'},
                           a={'id': j, 'how': 'spare', 'of': i, 'duty': 'any'}))
            return r.choice([[i, j, j], [i, i, j]])
        return [i]

    def iter_next(self, i):
        return self.emit({'ev': 'next', 'id': i})

    def s_reusable(self, ev):
        """a board whose layout uses no remembering pattern may be built again"""
        def uses(st):
            return st['rp'] != '' or any(
                x['k'] == 'rp' or (x['k'] == 'org' and uses(x['v']['st'])) for x in st['e'])
        return not uses(ev['org']['st'])

    def textbuild(self, bi):
        """the text form of a board run as code, if it can be"""
        def bad(p):                     # pandas does not read the weeks it writes
            return p['form'] == 'own' or p['form'].startswith('per:W')

        def fit(og, ev):
            st = og['st']
            if og['how'] == 'pts' or og.get('user') or any(bad(p) for p in og.get('mk', [])) or \
                    og.get('mcont') in ('deque', 'bare', 'series', 'keys'):
                return False
            for x in st['e']:
                vs = x['v'] if x['k'] == 'pat' else [x['v']] if x['k'] == 'lab' else []
                if any(v.startswith('o:') for v in vs):
                    return False
                if x['k'] == 'org' and not fit(x['v'], ev):
                    return False
            return True

        def fresh(st):                  # its remembering patterns are new ones
            st = dict(st)
            if st['rp'] != '':
                st['rp'] = one(st['rp'])
            st['e'] = [dict(x, v=one(x['v'])) if x['k'] == 'rp' else
                       dict(x, v=dict(x['v'], st=fresh(x['v']['st']))) if x['k'] == 'org' else x
                       for x in st['e']]
            return st

        new = {}
        one = new.get
        ev = {k: v for k, v in bi['ev'].items() if k != 'r'}
        if ev.get('once') or ev['cont'] not in ('list', 'tuple') or bad(ev['sp']) or bad(ev['ep']) \
                or not fit(ev['org'], ev):
            return None
        uses = self.s_uses(ev['org']['st'])
        if ev.get('plain') and uses or any(self.rpkind.get(i) != 'rp' for i in uses):
            return None
        if any(x.startswith('o:') for i in uses for x in self.s.rplabels[i]):
            return None
        for i in sorted(uses):
            new[i] = self.new('rp')
            self.emit({'ev': 'rp', 'id': new[i], 'labels': self.s.rplabels[i], 'kind': 'rp'})
        labs = ev['labs']
        ev.update(b=self.new('b'), sid=self.new('s'), mode='text', twin=bi['b'],
                  org=dict(ev['org'], st=fresh(ev['org']['st'])), am={'k': [], 'v': [], 'p': []},
                  ref='start', wts='duration', name='on_duty', selkind='default',
                  on=[x for x in labs if truth_of(x)], deflab='null', deflabGiven=False)
        if 'null' not in labs:
            ev['labs'] = sorted(labs + ['null'])
            ev['on'] = [x for x in ev['labs'] if truth_of(x)]
            ev['num'] = {x: num_of(x) for x in ev['labs']}
        self.emit(ev)
        return self.register(ev)

    def s_uses(self, st):
        r = {st['rp']} - {''}
        for x in st['e']:
            if x['k'] == 'rp':
                r.add(x['v'])
            elif x['k'] == 'org':
                r |= self.s_uses(x['v']['st'])
        return r

    def text(self, bi, again=False):
        ev = {'ev': 'text', 'b': bi['b'], 'o': self.ivl_obj(bi), 'dflt': bi['dflt'],
              'fresh': self.chance(0.3)}
        if again:
            ev['qid'] = self.new('q')
        self.emit(ev)
        if again:
            self.again(ev)

    REJECTS = ['org-both', 'org-neither', 'org-structure', 'layout', 'amendments',
               'worktime-source', 'closed', 'length-period', 'length', 'zero-length',
               'interval-ref', 'bounds', 'bounds-short', 'bound', 'location', 'schedule',
               'count-period', 'duty', 'selector', 'base-freq', 'marker-freq', 'location-out',
               'location-negative', 'operand']

    def reject(self, bi, what=None):
        ws = self.chance(0.4)
        g = self.anchored(self.r.choice('WMQA'))
        what = what or self.r.choice(self.REJECTS)
        kind = 'ws' if ws and what == 'duty' else 'ivl'
        iv = self.ws_obj(bi) if kind == 'ws' else self.span(bi)
        self.emit({'ev': 'reject', 'what': what, 'b': bi['b'], 'dflt': bi['dflt'],
                   'v': self.r.randrange(10 ** 6), 'per': freq_str(g),
                   'o': {'iv': iv, 's': self.sid(bi), 'kind': kind}})

    # --- calendars -----------------------------------------------------------------------------
    HOLIDAYS = {
        'us': ['new_year', 'mlk', 'presidents', 'memorial', 'independence', 'labor', 'columbus',
               'veterans', 'thanksgiving', 'black_friday', 'christmas', 'xmas_additional_day',
               'one_off'],
        'uk': ['new_year', 'new_year2', 'st_patricks', 'good_friday', 'easter_monday',
               'early_may', 'spring', 'summer', 'orangemens', 'st_andrews', 'christmas', 'boxing',
               'royal']}
    YEARS = {'us': (2000, 2020), 'uk': (2000, 2020), 'ru': (2005, 2021)}

    def cal_opts(self, c, plain=0.2):
        r = self.r
        if c == 'ru':
            o = {'dec31': self.chance(0.5), 'eves': self.chance(0.5), 'dec31Given': self.chance(0.5),
                 'evesGiven': self.chance(0.5)}
            if self.chance(plain):
                o.update(dec31=True, eves=True)
            return o
        hs = self.HOLIDAYS[c]
        k = self.pick(0, 3, 1, 4, 2, 3, r.randint(3, len(hs)), 3)
        skip = r.sample(hs, k)
        if self.chance(0.1):
            skip.append('no_such_day')
        o = {'skip': skip, 'skipGiven': self.chance(0.5),
             'cont': self.pick('set', 4, 'list', 1, 'tuple', 1, 'frozenset', 1),
             'long': self.chance(0.65), 'longGiven': self.chance(0.5)}
        if c == 'uk':
            o['country'] = r.choice(['england', 'scotland', 'northern_ireland'])
            o['countryGiven'] = self.chance(0.5)
        if self.chance(plain):
            o.update(skip=[], long=True)
        return o

    NUM = {x: num_of(x) for x in ['n:0', 'n:8', 'n:7', 'n:4', 'n:12', 'n:1', 'n:15/2', 'n:-2']}

    def cal(self, c=None, o=None):
        """a full calendar; -> the event"""
        r = self.r
        c = c or self.pick('us', 4, 'uk', 4, 'ru', 3, 'own', 3)
        ev = {'ev': 'cal', 'id': self.new('c'), 'c': c, 'num': self.NUM}
        if c == 'own':
            y = r.randint(1995, 2030)
            d0 = days(y, r.randint(1, 12), r.randint(1, 28))
            ev.update(d0=d0, d1=d0 + self.pick(r.randint(0, 20), 1, r.randint(300, 1200), 4))
            ev['wk'] = [r.choice(['n:0', 'n:8', 'n:8', 'n:4', 'n:12', 'n:15/2']) for _ in range(7)]
            ev['own'] = self.pick('base', 1, 'over', 2, 'kw', 2)
            ds = sorted(set(r.randint(d0 - 5, ev['d1'] + 5) for _ in range(r.randint(0, 15))))
            if ev['own'] == 'base':
                ds = []
            ev['am'] = [[d, r.choice(list(self.NUM))] for d in ds]
            if self.chance(0.2):            # a calendar of hours, without amendments
                ev.update(units=24, am=[], own='base', d1=d0 + r.randint(0, 40))
        else:
            ev['o'] = o or self.cal_opts(c)
        self.emit(ev)
        return ev

    def cal_near(self, full):
        """a day where something may happen"""
        r = self.r
        d0, d1 = full['r']['d0'], full['r']['d1']
        k = r.random()
        if k < 0.35 and full['r']['ex']:
            return r.choice(full['r']['ex'])[0] + r.choice([-1, 0, 0, 0, 1])
        if k < 0.55:
            y = r.randint(*self.YEARS.get(full['c'], (1996, 2030)))
            return days(y, 12, 31) + r.randint(-8, 8)
        if k < 0.65:
            return r.choice([d0, d1]) + r.randint(-2, 2)
        return r.randint(d0, d1)

    def day_point(self, d, last=1438):
        t = d * 1440 + self.pick(0, 3, self.r.randint(0, last), 2, last, 1)
        return self.point(1440, t, sub=0)

    def custom(self, full, first=None, last=None, mode=None):
        r = self.r
        if full['r']['k'] != 'cal':
            return
        ev = {k: full[k] for k in ('c', 'o', 'wk', 'own', 'am', 'd0', 'd1', 'units')
              if k in full}
        d0, d1 = full['r']['d0'], full['r']['d1']
        ev.update(ev='custom', twin=full['id'], mode=self.pick('plain', 5, 'only', 2, 'none', 1),
                  both=self.chance(0.2))
        cs, ce = [], []
        if self.chance(0.7):
            cs = [self.cal_near(full)]
        if self.chance(0.7):
            ce = [self.cal_near(full)]
        if cs and ce and cs[0] > ce[0] and self.chance(0.85):
            cs, ce = ce, cs
        if cs and self.chance(0.3):
            ce = [cs[0] + self.pick(0, 1, r.randint(0, 40), 2, r.randint(0, 800), 2)]
        far = self.chance(0.12)
        if cs and not far:
            cs = [max(d0, min(cs[0], d1))]
        if ce and not far:
            ce = [max(d0, min(ce[0], d1))]
        if mode:
            cs, ce, ev['mode'] = first, last, mode
        ev['cs'], ev['ce'] = cs, ce
        ev['csp'] = [self.day_point(cs[0])] if cs else []
        ev['cep'] = [self.day_point(ce[0])] if ce else []
        if 'units' in full:
            ev['csp'] = [self.point(1440, d * 1440 + r.choice([0, 0, 17]), sub=0) for d in cs]
            ev['cep'] = [self.point(1440, d * 1440 + 1380 + r.randint(0, 58), sub=0) for d in ce]
        n = 0 if mode or 'units' in full else self.pick(0, 2, 1, 2, 2, 2, r.randint(3, 10), 2)
        ca, cap, lo, hi = [], [], cs[0] if cs else d0, ce[0] if ce else d1
        for _ in range(n):
            d = self.cal_near(full) if self.chance(0.5) else r.randint(min(lo, hi) - 3, max(lo, hi) + 3)
            dup = [x for x in ca if x[0] == d]
            p = self.day_point(d, 1439)
            if dup and (ev['mode'] != 'only' or any(q['t'] == p['t'] for q in cap)):
                continue
            ca.append([d, r.choice(list(self.NUM))])
            cap.append(p)
        ev['ca'], ev['cap'], ev['caGiven'] = ca, cap, self.chance(0.3)
        if any(p['form'].startswith('per:') for p in cap) and full['c'] == 'own':
            for p in cap:
                p['form'] = 'ts'
        self.emit(ev)

    # --- helpers for calendar makers --------------------------------------------------------------
    def help(self):
        r = self.r
        fn = self.pick('nth', 3, 'easter', 1, 'extend', 4)
        ev = {'ev': 'help', 'fn': fn, 'cont': self.pick('list', 2, 'tuple', 1),
              'full': self.chance(0.4)}
        year = self.pick(r.randint(1990, 2040), 3, r.randint(1700, 2200), 2)
        labels = ['n:0', 'n:0', 'n:1', 'n:8', 's:x', 's:', 'n:5/2']
        if fn == 'nth':
            ds = []
            for _ in range(self.pick(0, 1, 1, 3, 2, 2, r.randint(3, 9), 2)):
                d = {'m': r.randint(1, 12), 'w': r.randint(1, 7),
                     'n': r.choice([1, 2, 3, 4, 5, 5, -1, -2, -3, -4, -5, -5]),
                     'sh': 0 if self.chance(0.6) else r.randint(-40, 40),
                     'shGiven': self.chance(0.3)}
                if self.chance(0.03):
                    d[r.choice('mwn')] = r.choice([0, 13, 8, 6, -6, -1])
                ds.append(d)
            ev.update(year=year, dates=ds, errors=self.pick('ignore', 2, 'raise', 1),
                      label=r.choice(labels))
        elif fn == 'easter':
            ev.update(year=year, kind=r.choice(['west', 'orth']), label=r.choice(labels),
                      shifts=[r.choice([0, -2, 1, 39, -46, 50, r.randint(-120, 260)])
                              for _ in range(self.pick(0, 1, 1, 2, 2, 2, 3, 1))])
        else:
            d = days(year, r.randint(1, 12), r.randint(1, 28))
            ds = set()
            for _ in range(self.pick(1, 2, 2, 3, 3, 3, r.randint(4, 12), 4)):
                ds.add(d)
                d += self.pick(1, 6, 2, 2, r.randint(3, 12), 2, r.randint(20, 400), 1)
            if self.chance(0.15):       # a week or so of holidays
                ds.update(range(d, d + r.randint(4, 9)))
            ds = list(ds)
            r.shuffle(ds)
            w = r.randrange(7)
            ev.update(am=[[x, r.choice(labels)] for x in ds],
                      forms=[self.form(1440, x * 1440) for x in ds],
                      how=r.choice(['previous', 'next', 'nearest', 'nearest']),
                      lab=[r.choice(labels)] if self.chance(0.4) else [],
                      wend=[5, 6] if self.chance(0.5) else
                      [(w + i) % 7 for i in range(self.pick(1, 2, 2, 3, 3, 2, 4, 1, 5, 0.5, 0, 0.5))])
        self.emit(ev)
