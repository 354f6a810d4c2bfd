"""What is exercised for each property: PLANS[id](gen) makes one episode."""
import random  # noqa: F401

QALL = ['locate', 'view', 'wsat', 'roll', 'duty', 'wswork', 'ivlpts', 'ivllen', 'ivlper',
        'ivlpos', 'bounds', 'iview', 'nth', 'count', 'list', 'len', 'dur', 'work', 'overlap',
        'portion', 'cper']


def boards(g, k=2, **kw):
    out = []
    for _ in range(k):
        bi = g.build(**kw)
        if bi:
            for _ in range(g.r.choice([0, 1, 2, 2, 3])):
                g.add(bi)
            out.append(bi)
    return out


def run_queries(g, bis, names, n):
    if not bis:
        return
    for _ in range(n):
        bi = g.r.choice(bis)
        if g.chance(0.05):
            g.churn(bi)
        getattr(g, 'q_' + g.r.choice(names))(bi)


def p01(g):
    for _ in range(6):
        q, f, s, e = g.frame(n=None, big=0.02)
        if g.chance(0.12):
            e = s - g.r.randint(0, 3 * max(1, e - s))
            e = min(s, max(e, -900000000 if q == 86400 else -155000000))
        g.build(frame=(q, f, s, e), plain=True, am=0, nulls=0, tag='')


def large(g, **kw):
    """a board whose workshifts are made up of tens of thousands of base units"""
    n = g.r.randint(33000, 70000)
    return g.build(q=1440, f={'n': 1, 'b': 'T', 'a': 0}, n=n, am=0, plain=False, depth=0, big=0,
                   kinds=('marks', 3, 'none', 1), labonly=True, **kw)


def many(g, **kw):
    """a board of several hundred workshifts of one period each"""
    b, c, k = g.r.choice([('D', 'W', 7), ('H', 'D', 24), ('H', 'W', 168), ('T', 'H', 60),
                          ('M', 'Q', 3), ('D', 'M', 30), ('S', 'T', 60)])
    n = min(k * g.r.randint(257, 800), 1200 if b == 'M' else 40000)
    kw.setdefault('kinds', ('none', 1))
    kw.setdefault('am', 0)
    return g.build(q=86400 if b == 'S' else 1440, f={'n': 1, 'b': b, 'a': 0}, n=n, plain=False,
                   depth=0, big=0, labonly=True, each=c, **kw)


def p02(g):
    if g.chance(0.05):
        bi = large(g) if g.chance(0.6) else many(g)
        if bi:
            run_queries(g, [bi], ['wsat', 'view'], 4)
        return
    for _ in range(3):
        bi = g.build(labs=0.6, am=0.1)
        if bi:
            run_queries(g, [bi], ['wsat', 'view'], 6)


def p03(g):
    if g.chance(0.01):
        many(g)
    if g.chance(0.06):
        g.day_by_day()
    for _ in range(4):
        g.build(kinds=('none', 1), depth=g.pick(0, 5, 1, 2, 2, 1), plain=False, am=0)


def p04(g):
    for _ in range(4):
        g.build(kinds=g.pick(('start', 4, 'pts', 1), 4, ('start', 4, 'none', 4, 'marks', 1), 1),
                depth=g.pick(0, 3, 1, 1), plain=False, am=0)


def p05(g):
    for _ in range(4):
        how = g.pick('nth', 3, 'west', 1, 'orth', 1)
        q = 1440
        f = g.pick({'n': 1, 'b': 'D', 'a': 0}, 6, {'n': 1, 'b': 'H', 'a': 0}, 0 if how == 'nth' else 1)
        n = g.pick(g.r.randint(30, 400), 2, g.r.randint(300, 1500), 2) * (
            g.r.choice([1, 6, 24]) if f['b'] == 'H' else 1)
        n = min(n, 4000)
        near = g.pick((1990, 2035), 3, (1905, 2090), 1)
        g.build(q=q, f=f, n=n, kinds=(how, 1), depth=g.pick(0, 4, 1, 1), plain=False, am=0, labs=0.9, near=near,
                refs='start')


def p06(g):
    if g.chance(0.01):
        many(g)
    for _ in range(5):
        g.build(kinds=g.pick(('marks', 1), 4, ('marks', 2, 'none', 1), 1), depth=g.pick(0, 3, 1, 1),
                plain=False, am=0)


def p07(g):
    for _ in range(g.r.randint(0, 3)):
        g.new_rp(g.label_pool())
    for _ in range(3):
        bi = g.build(depth=g.pick(1, 2, 2, 3, 3, 1), plain=g.chance(0.12), am=0, rps=0.5, orgs=0.35,
                     labs=0.2, kinds=('none', 5, 'marks', 5, 'start', 1, 'pts', 1))
        for _ in range(g.pick(0, 2, 1, 1, 5, 1) if g.rpids and bi else 0):
            g.rp_next()
        if bi is None:          # a failed build leaves remembering patterns undefined
            g.rpids = []
            break


def p08(g):
    for _ in range(3):
        bi = g.build(am=0, labs=0.5)
        if not bi:
            continue
        for _ in range(3):
            ev = dict(bi['ev'])
            ev.pop('r')
            ev.update(b=g.new('b'), sid=g.new('s'), mode='amend', twin=bi['b'])
            if not g.s_reusable(ev):
                break
            keys, vals = [], []
            for _ in range(g.pick(0, 1, 1, 2, 2, 4, g.r.randint(3, 10), 4)):
                t = g.tick(bi, 0.25)
                keys.append(g.point(bi['q'], t))
                vals.append(g.lab(bi['labs']))
            if keys and g.chance(0.25):
                p = g.r.choice(keys)
                keys.append(g.point(bi['q'], g.clamp(bi['q'], p['t'] + g.r.randint(-1, 1))))
                vals.append(g.lab(bi['labs']))
            g.fill_am(ev, keys, vals)
            if g.chance(0.1) and not any(p['form'].startswith(('date', 'per:'))
                                         for p in ev['am']['p']):
                ev['amcont'] = 'series'
            g.emit(ev)


def sched_twin(g, bi, e):
    """the same query on a board having the schedule in effect as its default one"""
    sid = e['x'] or e['o']['s']
    if not g.s_reusable(bi['ev']):
        return
    if sid not in bi['twins']:
        if sid == bi['dflt']:
            bi['twins'][sid] = g.rebuild(bi, selkind=g.pick(bi['ev']['selkind'], 1, 'bool', 1))
        else:
            a = bi['adds'][sid]
            bi['twins'][sid] = g.rebuild(bi, on=a['on'], selkind=g.pick(a['selkind'], 1, 'bool', 1),
                                            name=a['name'])
    t = bi['twins'][sid]
    if t is None:
        return
    o = dict(e['o'], s=t['dflt'], givs=g.chance(0.5))
    x = g.pick('', 3, t['dflt'], 1) if e['x'] else ''
    a = e['a']
    if 'j' in a:
        a = dict(a, j=dict(a['j'], s=t['dflt']))
    g.again(e, 'sched', b=t['b'], o=o, x=x, a=a, dflt=t['dflt'])


def p09(g):
    bis = [b for b in [g.build(), g.build()] if b]
    if not bis:
        return
    names = ['view', 'duty', 'duty', 'sched', 'schws', 'select', 'count', 'list', 'nth', 'roll', 'iview', 'overlap', 'portion', 'work',
             'dur', 'wswork', 'ivlpts', 'locate', 'ivllen', 'ivlper', 'bounds', 'cper', 'ivlpos']
    log = []
    for _ in range(26):
        bi = g.r.choice(bis)
        k = g.r.random()
        if k < 0.2:
            g.add(bi)
        elif k < 0.26:
            g.drop(bi)
        elif k < 0.32:
            g.churn(bi)
        elif k < 0.36:
            if g.chance(0.3):
                g.reject(bi, 'selector')
            g.snap(bi)
        elif k < 0.45 and log:
            g.again(g.r.choice(log), fresh=g.chance(0.3))
        else:
            n = len(g.events)
            run_queries(g, [bi], names, 1)
            es = [e for e in g.events[n:] if e['ev'] == 'q']
            log += es
            for e in es:
                if e['op'] != 'select' and g.chance(0.6):
                    sched_twin(g, bi, e)


def p10(g):
    bi = g.chance(0.04) and large(g)
    bi = bi or (g.chance(0.02) and many(g))
    bis = [bi] if bi else boards(g, 2)
    run_queries(g, bis, ['locate'] * 9 + ['wsat'], 40)


def p11(g):
    bis = boards(g, 2)
    run_queries(g, bis, ['roll'], 50)


def p12(g):
    bi = g.chance(0.01) and large(g)
    bis = [bi] if bi else boards(g, 2)
    run_queries(g, bis, ['ivlpts', 'ivlpts', 'ivlpts', 'ivllen', 'ivllen', 'ivllen', 'ivlpos',
                         'bounds', 'iview'], 45)


def p13(g):
    bi = g.chance(0.02) and large(g)
    bis = [bi] if bi else boards(g, 2)
    run_queries(g, bis, ['ivlper'], 45)


def p14(g):
    bis = boards(g, 2)
    its = []
    for _ in range(45):
        k = g.r.random()
        if not bis:
            break
        if k < 0.12:
            its.extend(g.iter_start(g.r.choice(bis)))
        elif k < 0.4 and its:
            g.iter_next(g.r.choice(its))
        else:
            run_queries(g, bis, ['nth', 'nth', 'nth', 'count', 'list', 'len'], 1)


def p15(g):
    if g.chance(0.03):
        bi = large(g)
        if bi:
            run_queries(g, [bi], ['dur', 'work', 'wswork'], 12)
        return
    bis = boards(g, 1, labs=0.5) + boards(g, 2, wts='labels', nulls=0)
    run_queries(g, bis, ['dur', 'work', 'work', 'wswork'], 50)


def p16(g):
    bis = boards(g, 2)
    run_queries(g, bis, ['overlap', 'overlap', 'portion', 'portion', 'count', 'dur', 'work', 'len',
                         'list', 'nth'], 50)


def p17(g):
    bis = boards(g, 2)
    run_queries(g, bis, ['cper'], 30)


def p21(g):
    bis = boards(g, 2)
    if not bis:
        return
    log = []
    for _ in range(12):
        k = len(g.events)
        run_queries(g, bis, QALL, 1)
        log += [e for e in g.events[k:] if e['ev'] == 'q']
        if g.chance(0.2):
            g.q_table(g.r.choice(bis), again=g.chance(0.5))
        if g.chance(0.1):
            g.text(g.r.choice(bis), again=g.chance(0.5))
    for bi in bis:
        g.snap(bi)
    for e in g.r.sample(log, min(len(log), 6)):
        g.again(e, fresh=g.chance(0.3))
    for bi in bis:
        if g.s_reusable(bi['ev']):
            g.rebuild(bi)
    for bi in bis:
        g.snap(bi)


def p22(g):
    bis = boards(g, 2)
    for _ in range(12):
        if not bis:
            break
        bi = g.r.choice(bis)
        g.q_table(bi)
        if g.chance(0.15):
            g.add(bi)
        if g.chance(0.1) and len(bi['live']) > 1:
            live = [s for n, s in bi['live'].items()]
            g.drop(bi, g.r.choice(live[1:]))
        if g.chance(0.2):
            g.text(bi)
    pool = g.label_pool()
    for _ in range(g.r.randint(0, 2)):
        g.new_rp(pool)
    for _ in range(3):
        bi = g.build(rps=0.5, pool=pool, am=0, plain=False)
        if bi is None:          # a failed build leaves remembering patterns undefined
            break
        bis.append(bi)
    for bi in bis:
        if g.chance(0.7):
            g.textbuild(bi)


def p18(g):
    c = 'us' if g.chance(0.4) else g.pick('uk', 4, 'ru', 1)
    first = g.cal(c)
    if g.chance(0.15):              # options of another calendar with the same objects
        o = g.cal_opts(c)
        if c != 'ru':
            o.update({k: first['o'][k] for k in ('skip', 'skipGiven', 'cont')})
        g.cal(c, o)


def p19(g):
    for _ in range(30):
        g.help()


def p20(g):
    if not g.done:            # the known finding
        full = g.cal('us', {'skip': [], 'long': True})
        g.custom(full, [5479 + 365], [6939], 'plain')
        g.reset()
    full = g.cal()
    for _ in range(8):
        g.custom(full)


def p23(g):
    g.wild = 0.85
    for _ in range(4):
        g.build(kinds=('none', 1), depth=g.pick(0, 4, 1, 1), plain=False, am=0)
    g.wild = 0
    bis = boards(g, 1)
    for bi in bis:
        for _ in range(14):
            g.reject(bi)
        g.snap(bi)


PLANS = {'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'P05': p05, 'P06': p06, 'P07': p07,
         'P08': p08, 'P09': p09, 'P10': p10, 'P11': p11, 'P12': p12, 'P13': p13, 'P14': p14,
         'P15': p15, 'P16': p16, 'P17': p17, 'P18': p18, 'P19': p19, 'P20': p20, 'P21': p21, 'P22': p22, 'P23': p23}
