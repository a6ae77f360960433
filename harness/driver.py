"""Replays behaviours of the specification on the real package and records what every call returned.

    driver.py IN.json OUT.json WORKERS TIMEOUT SRC LOGS

Each trace runs in a forked process of its own, so that a crash or a hang is an observation like any other."""
import faulthandler
import json
import os
import re
import select
import signal
import sys
import time

import numpy as np

if os.environ.get('VERIF_FILL'):      # nothing is in new memory by luck
    _empty = np.empty

    def empty(*args, **kw):
        x = _empty(*args, **kw)
        if x.dtype.kind in 'fiuc' and x.flags.writeable:
            x.view(np.uint8).fill(127) if x.ndim and x.flags.c_contiguous else x.fill(1.3e306 if x.dtype.kind in 'fc' else 127)
        return x
    np.empty = empty

import panels
import ops


def run_child(trace, fd):
    w = os.fdopen(fd, 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    ctx = ops.Ctx()
    for e in trace['ev']:
        try:
            ops.style(e)
            obs = ops.OPS[e['op']](ctx, e)
            obs.setdefault('exc', '')
        except ops.Skip:
            obs = dict(exc='SKIP')
        except Exception as x:
            obs = dict(exc=type(x).__name__, msg=str(x)[:200])
        w.write(json.dumps(obs) + '\n')
        w.flush()
    w.close()
    os._exit(0)


def main():
    inp, outp, workers, limit, src, logs = sys.argv[1:7]
    workers, limit = int(workers), float(limit)
    assert os.path.realpath(panels.__file__).startswith(os.path.realpath(src) + os.sep), panels.__file__
    traces = json.load(open(inp))
    todo = list(range(len(traces)))[::-1]
    live = {}
    while todo or live:
        while todo and len(live) < workers:
            k = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    run_child(traces[k], w)
                except BaseException as x:
                    sys.stderr.write('driver failure: %r\n' % (x,))
                    os._exit(97)
            os.close(w)
            live[r] = [k, pid, time.time(), b'']
        rs, _, _ = select.select(list(live), [], [], 0.5)
        for r in rs:
            data = os.read(r, 1 << 20)
            if data:
                live[r][3] += data
                continue
            k, pid, _, buf = live.pop(r)
            os.close(r)
            _, status = os.waitpid(pid, 0)
            finish(traces[k], buf, status, '' if logs == '-' else '%s.%d' % (logs, pid))
        now = time.time()
        for r, (k, pid, t0, buf) in list(live.items()):
            if now - t0 > limit:
                os.kill(pid, signal.SIGKILL)
    with open(outp, 'w') as f:
        json.dump(traces, f)


def report(path):
    """What the sanitizer said about a process, shortened."""
    if not path or not os.path.exists(path):
        return ''
    with open(path, errors='replace') as f:
        lines = [x.strip() for x in f]
    first = [x for x in lines if 'ERROR: AddressSanitizer' in x][:1]
    if not first or 'alloc' in first[0] and 'size' in first[0] or 'out-of-memory' in first[0]:
        raise SystemExit('sanitizer: ' + ' / '.join(lines[:5]))
    where = [re.sub(r'0x[0-9a-f]+|\(.*|^#\d+ ', '', x).strip() for x in lines if re.match(r'#[0-3] ', x)][:4]
    return (re.sub(r'0x[0-9a-f]+|^=+\d+=+', '', first[0]).strip() + ' / ' + ' / '.join(where))[:400]


def finish(trace, buf, status, log):
    obs = [json.loads(x) for x in buf.decode().split('\n')[:-1]]
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 97:
        raise SystemExit('driver failure in trace %s' % trace.get('id'))
    n = len(obs)
    if n < len(trace['ev']):
        how = 'KILLED %d' % os.WTERMSIG(status) if os.WIFSIGNALED(status) else 'EXIT %d' % os.WEXITSTATUS(status)
        obs.append(dict(exc=how, msg=''))
        trace['ev'] = trace['ev'][:n + 1]
    for e, o in zip(trace['ev'], obs):
        o.setdefault('msg', '')
        o['mem'] = ''
        e['obs'] = o
    said = report(log)
    if said:
        trace['ev'][-1]['obs']['mem'] = said


if __name__ == '__main__':
    main()
