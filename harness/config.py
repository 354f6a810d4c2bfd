"""Which clauses of the specification decide which property, and how much is run."""

# property -> (clauses (fnmatch), random episodes per shard of the quick tier)
PROPS = {
    'P01': (['frame-*', 'layout-cuts', 'layout-raises', 'layout-accepts'], 150),
    'P02': (['part-*', 'wsat', 'view'], 150),
    'P03': (['layout-cuts', 'layout-labels', 'layout-raises'], 170),
    'P04': (['layout-cuts', 'layout-labels', 'layout-raises'], 170),
    'P05': (['layout-cuts', 'layout-labels', 'layout-raises'], 90),
    'P06': (['layout-cuts', 'layout-labels', 'layout-raises'], 170),
    'P07': (['layout-cuts', 'layout-labels', 'layout-raises', 'rp-next'], 150),
    'P08': (['amend-cuts', 'amend-ends', 'amend-durations', 'amend-labels', 'amend-accepts',
             'amend-raises', 'amend-duty', 'amend-span'], 120),
    'P09': (['duty', 'duty-*', 'sched*', 'schws', 'select', 'view', 'same-sched',
             'same-repeat', 'snap'], 150),
    'P10': (['locate', 'call1'], 150),
    'P11': (['roll'], 200),
    'P12': (['ivlpts', 'ivllen', 'ivlpos', 'bounds', 'iview'], 150),
    'P13': (['ivlper'], 150),
    'P14': (['nth', 'count', 'list', 'len', 'next'], 200),
    'P15': (['dur', 'work', 'wswork'], 150),
    'P16': (['overlap', 'portion', 'void-*'], 200),
    'P17': (['cper'], 100),
    'P18': (['cal-raises', 'cal-span', 'cal-days', 'cal-duty', 'cal-work', 'cal-args'], 60),
    'P19': (['help-*'], 150),
    'P20': (['custom-*', 'cal-args'], 40),
    'P21': (['same-repeat', 'rebuild-*', 'snap', 'args-changed'], 80),
    'P22': (['table', 'text', 'text-*'], 60),
    'P23': (['reject-*', 'layout-raises', 'layout-accepts'], 150),
}

# models checked and executed with each property: (module, parameters)
MODELS = {p: [('MC_Queries', {'GROUP': p})]
          for p in ('P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P22')}
MODELS.update({p: [('MC_Layout', {'GROUP': p})]
               for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P23')})
MODELS.update({p: [('MC_Holidays', {'GROUP': p})] for p in ('P18', 'P19', 'P20')})
for _p in ('P09', 'P14', 'P21'):
    MODELS.setdefault(_p, []).append(('MC_System', {'GROUP': _p}))
for _p in ('P01', 'P05'):
    MODELS[_p].append(('MC_Calendar', {'GROUP': _p}))
# how much of the sessions they print is executed
MODEL_BYTES = {'quick': 3 << 20, 'thorough': 300 << 20}

DEC26 = 6934                # 26 Dec 2018
JAN2015 = 5479

ASSUMPTIONS = [
    'points in time between 1677 and 2262 at a precision of one minute (or one second within '
    '68 years of 2000), time zone naive',
    'labels are None, numbers, booleans or strings',
]


def known_key(prop, bad):
    """the identity of a disagreement in the list of known findings"""
    clause, ev, x, _ = bad
    if prop == 'P20' and clause == 'custom-days' and ev['c'] == 'us' and ev['mode'] == 'plain':
        # the code looks for the year 2014 instead of 2018
        if x['want'] == [[DEC26, 'n:0']] and x['got'] == [] and ev['cs'] and \
                ev['cs'][0] >= JAN2015:
            return 'us-26dec2018'
    if prop == 'P23' and clause == 'reject-location-negative' and \
            ev['r'] == {'k': 'made', 'v': 'Workshift'}:
        return 'negative-location'
    return None


TECHNIQUE = ('TLA+ specification checked with TLC; conformance by validating recorded sessions '
             'of the real library (random ones, and all sessions enumerated by model checking MC_*.tla, executed '
             'on it) against the specification.')
TECHNIQUES = {}
LEVEL_NOTE = ('The specification is model checked in small scopes; the code is bound to it by '
              'trace validation, so what is decided about the code is every session executed.')
NOT_APPLICABLE = {}
