"""Run independent analyses in forked children (keeps the parent's big stack)."""
import os
import pickle
import select
import signal
import time
import traceback


def parmap(fn, items, nproc=8, timeout=600):
    """[fn(x) for x in items]; a child that fails or runs out of time yields ('error', text)."""
    items = list(items)
    out = [None] * len(items)
    todo = list(range(len(items)))[::-1]
    live = {}
    if nproc <= 1:
        return [fn(x) for x in items]
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    try:
                        res = pickle.dumps(('ok', fn(items[i])))
                    except BaseException:
                        res = pickle.dumps(('error', traceback.format_exc()))
                    with os.fdopen(w, 'wb') as f:
                        f.write(res)
                except BaseException:
                    code = 1
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = (i, pid, time.time(), [])
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for r in rs:
            i, pid, t, buf = live[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                out[i] = pickle.loads(b''.join(buf))
            except Exception:
                out[i] = ('error', 'the analysis of this subject ended without a result')
        now = time.time()
        for r in list(live):
            i, pid, t, buf = live[r]
            if now - t > timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                out[i] = ('error', 'time limit')
    return out
