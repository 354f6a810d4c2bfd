"""replay.py FILE...   executes the events of recorded sessions once more and validates them"""
import os
import sys
import tempfile
import shutil
import json

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check                 # noqa: E402


def main():
    tmp = tempfile.mkdtemp(prefix='vp-replay-')
    try:
        for src in sys.argv[1:]:
            out = os.path.join(tmp, 'x.ndjson')
            info, hung = check.run_worker(['exec', os.path.abspath(src)], out, 600)
            if hung:
                print('no answer to', json.dumps(hung))
                continue
            rc, text = check.tlc('Trace.cfg', 'Trace.tla', tmp, 'x', 600, TRACE=out)
            lines = open(out).read().splitlines()
            for b in check.printed(text, 'BAD'):
                print('clause %s at event %d\n  expected %s\n  event    %s' % (
                    b['c'], b['i'], json.dumps(b['x']), lines[b['i'] - 1]))
            done = list(check.printed(text, 'DONE'))
            print(done or text[-2000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()
