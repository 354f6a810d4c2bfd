"""Sessions printed by the models (spec/MC_*.tla) say what happens; here they get
what is needed to write the arguments down in Python."""
import itertools

from tbdrive import num_of

HOW = {'roll': 'full', 'wsat': 'int', 'ivlpts': 'get', 'ivllen': 'get', 'ivlper': 'get',
       'ivlpos': 'int', 'nth': 'nth', 'list': 'ws', 'len': 'len', 'overlap': 'call',
       'portion': 'call', 'bounds': 'get'}
CAL_NUM = {x: num_of(x) for x in ['n:0', 'n:8', 'n:7', 'n:4', 'n:12', 'n:1', 'n:15/2', 'n:-2']}
FORMS = ['ts', 'ts', 'dt', 'np', 'iso', 'text']


def point(t, form='ts'):
    return {'t': t, 'form': form, 'sub': 0}


class Expander(object):
    """one per session; k varies the way things are written"""
    def __init__(self, k=0):
        self.labels, self.sids, self.k = set(), {}, itertools.count(k)

    def form(self):
        return FORMS[next(self.k) % len(FORMS)]

    def element(self, el):
        if el['k'] == 'lab':
            self.labels.add(el['v'])
        elif el['k'] == 'pat':
            self.labels.update(el['v'])
        elif el['k'] == 'org':
            self.org(el['v'])

    def org(self, og):
        for el in og['st']['e']:
            self.element(el)
        if og['k'] == 'marks':
            og['mk'] = [point(t, self.form()) for t in og['pts']]
        elif og['how'] in ('start', 'west', 'orth') and 'kw' not in og:
            og['kw'] = []
            for o in og['at']:
                kw = {}
                if og['how'] == 'start':
                    if o['mo']:
                        kw['months'] = o['mo']
                    if o['d'] or not (o['mo'] or o['t']):
                        kw['days'] = o['d']
                    if o['t']:
                        kw['minutes'] = o['t']
                else:
                    kw['days'] = o['d']
                og['kw'].append(kw)
        elif og['how'] == 'nth':
            og['kw'] = [{x: o[x] for x in o if x != 'shift' or o[x]} for o in og['at']]

    def build(self, ev):
        self.labels.update([ev['deflab'], 'n:0'])
        self.labels.update(ev['on'])
        self.labels.update(ev['am']['v'])
        self.org(ev['org'])
        ev['sp'], ev['ep'] = point(ev['s'], self.form()), point(ev['e'], self.form())
        for p in (ev['sp'], ev['ep']):
            if p['form'] == 'np':
                p['form'] = 'ts'
        ev['am']['p'] = [point(t, self.form()) for t in ev['am']['k']]
        ev['deflabGiven'] = ev['deflab'] != 'null'
        ev.setdefault('selkind', 'bool')
        ev['labs'] = sorted(self.labels)
        ev['num'] = {x: num_of(x) for x in ev['labs']}
        self.sids[ev['b']] = ev['sid']

    def query(self, ev):
        a, op = ev['a'], ev['op']
        ev['dflt'] = self.sids.get(ev['b'])
        ev['fresh'] = False
        if op in HOW:
            a.setdefault('how', HOW[op])
        if op in ('locate', 'call1', 'ivllen', 'ivlper'):
            a.update(form=a.get('form') or self.form(), sub=0)
        if op == 'ivlpts':
            a.update(forms=[self.form(), self.form()], subs=[0, 0], open=['none', 'none'])
        if op == 'ivlper' and a['how'] == 'get' and next(self.k) % 3 == 0:
            a['how'] = 'period'

    def calendar(self, ev):
        ev['num'] = CAL_NUM
        if ev['ev'] == 'custom':
            ev.update(both=False, caGiven=False,
                      csp=[point(d * 1440, self.form()) for d in ev['cs']],
                      cep=[point(d * 1440, self.form()) for d in ev['ce']],
                      cap=[point(x[0] * 1440, self.form()) for x in ev['ca']])

    def helper(self, ev):
        ev.update(cont='list', full=False)
        if ev['fn'] == 'extend':
            ev['forms'] = [self.form() for _ in ev['am']]

    def expand(self, ev):
        k = ev['ev']
        if k == 'rp':
            self.labels.update(ev['labels'])
        elif k == 'build':
            self.build(ev)
        elif k == 'add':
            ev.setdefault('selkind', 'bool')
        elif k == 'q':
            self.query(ev)
        elif k in ('iter', 'text'):
            ev.update(dflt=self.sids.get(ev['b']), fresh=False)
        elif k == 'same':
            self.query(ev['q'])
        elif k in ('cal', 'custom'):
            self.calendar(ev)
        elif k == 'help':
            self.helper(ev)
        return ev


def session(events, k=0):
    x = Expander(k)
    return [x.expand(ev) for ev in events]
