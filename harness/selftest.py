"""selftest.py [PROPERTY ..]: does the judge notice?  Sessions are recorded and then observations in
them are falsified, one place each; prints those falsifications which the specification accepts.
Not a check; run by hand."""
import json
import os
import random
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check                 # noqa: E402
import config                # noqa: E402


def places(x, path=()):
    """all values within x which may be falsified"""
    if isinstance(x, dict):
        for k in sorted(x):
            if k not in ('m', 'q', 'args'):
                for y in places(x[k], path + (k,)):
                    yield y
    elif isinstance(x, list):
        if x:
            yield path, 'drop'
            yield path, 'twice'
        for i in range(len(x)):
            for y in places(x[i], path + (i,)):
                yield y
    elif isinstance(x, bool):
        yield path, 'flip'
    elif isinstance(x, int):
        yield path, 'more'
        yield path, 'less'
    elif isinstance(x, str):
        yield path, 'text'


def falsify(r, path, how, rng):
    if not path:
        return
    x = r
    for k in path[:-1]:
        x = x[k]
    k = path[-1]
    v = x[k]
    if how == 'drop':
        del v[rng.randrange(len(v))]
    elif how == 'twice':
        i = rng.randrange(len(v))
        v.insert(i, v[i])
    elif how == 'flip':
        x[k] = not v
    elif how in ('more', 'less'):
        x[k] = v + (1 if how == 'more' else -1)
    else:
        x[k] = {'n:0': 'n:1'}.get(v, 'n:0') if v[1:2] == ':' or v == 'null' else \
            'ValueError' if v != 'ValueError' and v.endswith('Error') else v + 'x'


def main(props):
    for prop, what in [(p, w) for p in props for w in (False, True)]:
        tmp = tempfile.mkdtemp(prefix='vp-self-')
        try:
            # either what others depend on or what depends on it
            rng = random.Random(prop)
            out = os.path.join(tmp, 't.ndjson')
            check.run_worker(['gen', prop, 'self/0', '40' if not what else '150', '60'], out, 200)
            evs = [json.loads(x) for x in open(out)]
            changed = {}
            for i, e in enumerate(evs):
                if e['ev'] == 'reset':
                    free = True
                first = e['ev'] in ('build', 'add', 'drop', 'iter', 'cal')
                if not isinstance(e.get('r'), dict) or first != what or rng.random() > (0.2 if what else 0.5):
                    continue
                c = [p for p in places(e['r']) if p[0] and p[0] != ('k',)]
                if e['ev'] in ('build', 'cal', 'custom'):      # no lists which do not fit together
                    c = [p for p in c if p[1] not in ('drop', 'twice') and (e['ev'] == 'build' or p[1] != 'text')]
                if not c:
                    continue
                p, how = rng.choice(c)
                if what and not free:
                    continue
                free = False
                falsify(e['r'], p, how, rng)
                changed[i + 1] = (p, how)
            src = os.path.join(tmp, 'f.ndjson')
            with open(src, 'w') as f:
                for e in evs:
                    f.write(json.dumps(e) + '\n')
            rc, text = check.tlc('Trace.cfg', 'Trace.tla', tmp, 'x', 600, TRACE=src)
            done = list(check.printed(text, 'DONE'))
            bad = {b['i'] for b in check.printed(text, 'BAD')}
            if not done:
                print(prop, 'stopped:', text[-1500:])
                continue
            missed = [i for i in changed if i not in bad]
            print('%s %s: %d falsified, %d noticed' % (prop, 'made' if what else 'asked', len(changed), len(changed) - len(missed)))
            kinds = {}
            for i in missed:
                e = evs[i - 1]
                kinds.setdefault((e['ev'], e.get('op'), e['r'].get('k'), str(changed[i][0][:2]),
                                  changed[i][1]), []).append(i)
            for k in sorted(kinds, key=str):
                e = dict(evs[kinds[k][0] - 1])
                print('   ', len(kinds[k]), k, json.dumps(e)[:700] if os.environ.get('VP_DEBUG') else '')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1:] or sorted(config.PROPS))
