"""check.py <property id>: decide one property of /repo by static analysis of its current source."""
import importlib
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.kit import known_match


def load_known():
    out = []
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for l in f:
            if not l.startswith('known:'):
                continue
            head, text = l[6:].split('|', 1)
            d = dict(x.split('=', 1) for x in head.split())
            out.append(dict(property=d['property'], rule=d['rule'], inst=d.get('inst', '*').replace('~', ' '), text=text.strip()))
    return out


STATE = {}


def resident():
    """Resident memory of this process, in GB."""
    try:
        with open('/proc/self/statm') as f:
            return int(f.read().split()[1]) * os.sysconf('SC_PAGE_SIZE') / 1e9
    except (OSError, ValueError, IndexError):
        return 0.0


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if '--quick' in sys.argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from sa import kit
    mod = importlib.import_module('props.' + pid.lower())
    ctx = kit.Ctx(pid, tier, seed)
    STATE.update(ctx=ctx, mod=mod, tier=tier)
    for step in mod.STEPS:
        try:
            step(ctx)
        except kit.Broken as b:
            ctx.broken.append('%s: %s' % (step.__name__, b))
        except RecursionError:
            ctx.incomplete.append('%s: recursion limit' % step.__name__)
        except Exception as e:                  # what the analysis cannot follow is undecided: never proved, never a violation
            tb = traceback.format_exc()
            ctx.incomplete.append('%s: %s: %s\n%s' % (step.__name__, type(e).__name__, e, tb))
    return ctx.finish(mod.TITLE, mod.RULE, mod.MIN, load_known())


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.daemon = True
    t.start()
    t0 = time.time()
    while t.is_alive():
        t.join(1.0)
        ctx = STATE.get('ctx')
        if not t.is_alive() or ctx is None:
            continue
        # a run that cannot finish in time (or memory) reports what it has decided so far
        late, big = time.time() - t0, resident()
        if STATE['tier'] != 'quick':
            late = 0
        over = late > 780 or big > 22
        if over or (late > 150 or big > 7) and any(o.kind == 'refuted' for o in list(ctx.obs)):
            known = load_known()
            if over or any(o.kind == 'refuted' and not known_match(known, ctx.pid, o) for o in list(ctx.obs)):
                ctx.incomplete.append('not finished after %d s, with %.1f GB in use' % (time.time() - t0, big))
                ctx.obs = list(ctx.obs)
                rc.append(ctx.finish(STATE['mod'].TITLE, STATE['mod'].RULE, STATE['mod'].MIN, known))
                break
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
