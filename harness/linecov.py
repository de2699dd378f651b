"""Line coverage of the code under test, for tools/mutate.py only."""
import atexit
import json
import os
import sys


def start(repo, outdir):
    root = os.path.realpath(repo) + os.sep
    hits = set()

    def local(frame, event, arg):
        if event == 'line':
            hits.add((frame.f_code.co_filename, frame.f_lineno))
        return local

    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(root):
            hits.add((f, frame.f_lineno))
            return local
        return None

    def dump():
        sys.settrace(None)
        with open(os.path.join(outdir, 'cov%d.json' % os.getpid()), 'w') as f:
            json.dump(sorted((os.path.relpath(a, root), b) for a, b in hits), f)
    atexit.register(dump)
    sys.settrace(trace)
