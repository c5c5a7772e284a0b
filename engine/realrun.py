"""Runs harnesses on the real code with concrete inputs.

usage: realrun.py BATCH.json OUT.jsonl      or      realrun.py --replay FILE
Every item of a batch is {check, task, inputs}; one line of OUT per item, written before the next one starts.
"""
import json
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def in_package(e, world):
    """did the exception pass through the code under test?"""
    pre = os.path.join(os.path.abspath(world.repo), 'beam_telescope_analysis')
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(pre) or f.endswith('.pyx'):
            return True
        tb = tb.tb_next
    return False


def run_item(world, item):
    from engine.conc import ConcCtx, Skip
    import importlib
    mod = importlib.import_module('checks.' + item['check'].lower())
    fn = getattr(mod, item['fn'])
    c = ConcCtx(item['inputs'])
    world.reset()
    res = dict(id=item.get('id'))
    try:
        fn(c, world, item['cfg'])
    except Skip as e:
        res['skip'] = str(e)
    except Exception as e:
        res['exception'] = type(e).__name__
        if isinstance(e, (AttributeError, NameError, TypeError, AssertionError)) and not in_package(e, world):
            res['error'] = 'harness: ' + traceback.format_exc()[-1500:]
            return res
        c.failures.append('unexpected %s' % type(e).__name__)
        res['detail'] = '%s: %s' % (type(e).__name__, str(e)[:500])
        res['trace'] = traceback.format_exc()[-2000:]
    res['failures'] = c.failures
    res['observed'] = c.observed
    res['covers'] = sorted(c.covers)
    return res


def main():
    from engine.real import RealWorld
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            item = json.load(f)
        from engine import driver
        sys.exit(driver.replay_file(sys.argv[2]))
    with open(sys.argv[1]) as f:
        batch = json.load(f)
    world = RealWorld(batch['repo'], batch.get('so'))
    try:
        with open(sys.argv[2], 'a') as out:
            for item in batch['items']:
                out.write(json.dumps({'start': item['id']}) + '\n')
                out.flush()
                r = run_item(world, item)
                out.write(json.dumps(r, default=str) + '\n')
                out.flush()
    finally:
        world.close()


if __name__ == '__main__':
    main()
