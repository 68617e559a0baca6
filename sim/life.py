"""One life of a simulated process: start in a given environment, do the work left over, write down every answer.

usage: python -m sim.life PLAN OUT     PLAN is JSON, OUT receives one pickled frame per finished operation.
"""
import importlib
import io
import json
import locale
import os
import pickle
import signal
import struct
import sys


def die():
    os.kill(os.getpid(), signal.SIGKILL)


def main(plan_path, out_path):
    with open(plan_path) as f:
        life = json.load(f)
    kill = life.get('kill') or {}
    if kill.get('what') == 'write':  # the machine goes down while a cache file is being written
        seen, own = [0], out_path[:-len('.out')] + '.'

        def audit(event, args):
            if event == 'open' and isinstance(args[1], str) and ('w' in args[1] or 'x' in args[1]) or event == 'os.rename':
                if not str(args[0]).startswith(own) or life['package'] not in str(args[0]) and '.numba/' not in str(args[0]):
                    return
                seen[0] += 1
                if seen[0] == kill['nth']:
                    die()
        sys.addaudithook(audit)
    locale.setlocale(locale.LC_ALL, '')
    sink = sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding=life['encoding'], errors='strict')
    import warnings
    warnings.simplefilter(life['warnings'])
    sys.stderr = io.StringIO()
    for m in life['imports']:
        importlib.import_module(m)
    import sim.core as core
    from sim.canon import canon
    from sim.props import c14
    where = os.path.realpath(sys.modules['frm'].__file__)
    assert where.startswith(os.path.realpath(os.environ['PROJECT_DIR_FRM']) + '/'), where
    core.instrument(False)
    with open(out_path, 'ab', buffering=0) as out:
        for op in life['ops']:
            spec = life['cases'][op['k']]
            case = c14.ALL[spec['kind']]
            inputs = case.inputs(spec['spec'])
            sim = core.Sim({'clients': [[dict(op, name='call')]]}, lambda c, o: canon(case.call(spec['spec'], inputs)))
            sim.sink = sink
            if kill.get('op') == op['id']:
                def hook(s, client):
                    if client.ticks >= kill['tick']:
                        die()
                sim.hooks, sim.hook_every = [hook], 1
            sim.run()
            rec = sim.records[(0, op['id'])]
            frame = pickle.dumps((op['id'], {k: rec.get(k) for k in ('status', 'exc', 'msg', 'value', 'ticks')}), protocol=4)
            out.write(struct.pack('<Q', len(frame)) + frame)
        frame = pickle.dumps(('', os.getpid()))
        out.write(struct.pack('<Q', len(frame)) + frame)
    sink.detach()
    sys.stdout = sys.__stdout__


def frames(path):
    """The complete frames of a life; the last one may be torn."""
    out = []
    try:
        with open(path, 'rb') as f:
            data = f.read()
    except FileNotFoundError:
        return out
    at = 0
    while at + 8 <= len(data):
        n, = struct.unpack_from('<Q', data, at)
        if at + 8 + n > len(data):
            break
        out.append(pickle.loads(data[at + 8:at + 8 + n]))
        at += 8 + n
    return out


if __name__ == '__main__':
    try:
        main(sys.argv[1], sys.argv[2])
    except BaseException:
        import traceback
        with open(sys.argv[2] + '.err', 'w') as f:
            f.write(traceback.format_exc())
        os._exit(9)
    os._exit(0)
