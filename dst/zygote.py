'''
Fork server: a warm interpreter with one PYTHONHASHSEED. Reads one JSON request
per line: {"module":, "seed":, "tier":} (make the plan from the seed) or
{"plan": {...}}; runs it in a forked child; answers with one JSON line.
'''
import sys, os, json, time, signal, select, random

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DST_REPO', '/repo')
sys.path[:0] = [HERE, REPO]


def main():
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('DST_DEBUG'):
        os.dup2(devnull, 2)

    import dolfin as df
    df.set_log_level(50)
    df.parameters['form_compiler']['cpp_optimize'] = True
    df.parameters['form_compiler']['cpp_optimize_flags'] = '-O0'
    import logging
    logging.disable(logging.CRITICAL)
    import tqdm
    tqdm.tqdm.monitor_interval = 0      # No thread of its own
    import sim
    sim.own_locks()
    import xii
    assert os.path.realpath(xii.__file__).startswith(os.path.realpath(REPO) + os.sep), xii.__file__
    import props, importlib, pkgutil
    for m in pkgutil.walk_packages(xii.__path__, 'xii.', onerror=lambda name: None):
        try:
            importlib.import_module(m.name)     # None is imported for the first time by callers
        except Exception:
            pass
    for name in os.environ.get('DST_MODULES', '').split():
        importlib.import_module('props.' + name)
    import faulthandler
    print(json.dumps({'ready': os.getpid()}), file=out, flush=True)

    for line in sys.stdin:
        req = json.loads(line)
        timeout = req.get('timeout', 120)
        r, w = os.pipe()
        t0 = time.monotonic()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setsid()
            if os.environ.get('DST_DEBUG'):
                faulthandler.enable()
            try:
                plan = req.get('plan')
                if plan is None:
                    plan = sim.make_plan(req['module'], req['seed'], req['tier'])
                res = sim.execute(plan)
                if res['status'] != 'ok' or req.get('want_plan'):
                    res['plan'] = plan
                data = json.dumps(res).encode()
            except BaseException as e:
                import traceback
                data = json.dumps({'seed': req.get('seed'), 'status': 'harness', 'kind': type(e).__name__,
                                   'msg': traceback.format_exc()[-3000:]}).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
            os._exit(0)
        os.close(w)
        data, dead = b'', t0 + timeout
        while True:
            left = dead - time.monotonic()
            ready = select.select([r], [], [], max(left, 0))[0] if left > 0 else []
            if not ready:
                break
            d = os.read(r, 1 << 16)
            if not d:
                break
            data += d
        timed_out = time.monotonic() >= dead
        if timed_out:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                os.kill(pid, signal.SIGKILL)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        try:
            res = json.loads(data)
        except ValueError:
            if timed_out:
                res = {'status': 'timeout', 'kind': 'timeout', 'msg': '%g s' % timeout}
            else:
                sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
                # SIGKILL is the sandbox running out of memory: not a verdict
                res = {'status': 'harness' if sig == signal.SIGKILL else 'violation', 'kind': 'process died',
                       'msg': 'signal %s' % sig if sig else 'exit %s' % status}
            res['seed'] = req.get('seed', (req.get('plan') or {}).get('seed'))
            if 'plan' in req:
                res['plan'] = req['plan']
        res['wall'] = time.monotonic() - t0
        print(json.dumps(res), file=out, flush=True)


if __name__ == '__main__':
    main()
