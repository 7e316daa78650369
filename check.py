#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import gc
import importlib
import os
import resource
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(60000)
threading.stack_size(512 << 20)

MODS = {'p_x64': range(1, 6), 'p_mac': range(6, 14), 'p_obj': range(14, 19), 'p_asm': range(19, 23), 'p_text': (23, 24, 25, 26, 27, 33), 'p_cli': (28, 29, 30, 31, 32)}


CK = []


def main():
    from vt import build, chk, dd
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    ck = chk.Check(pid, tier)
    CK.append(ck)
    mod = next(m for m, r in MODS.items() if int(pid[1:]) in r)
    m = importlib.import_module('vt.' + mod)
    kw = {}
    dd.METER.deadline = time.monotonic() + (600 if tier == 'quick' else 3 * 3600)
    try:
        kw = getattr(m, pid.lower())(ck) or {}
    except chk.Stop:
        pass
    except build.BuildError as e:
        print('ERROR: ' + str(e))
        ck.undecided('build', 'repository', 'MIR dump', 'not built')
        rc = ck.finish(explanation='nothing was analysed: ' + str(e)[:500])
        try:
            build.dump('bin')
        except build.BuildError:
            return 2                            # the repository itself does not compile
        return rc
    except chk.Undecided as e:
        ck.undecided('shape', mod, 'analysis', str(e))
    except MemoryError:
        return None
    except Exception as e:                      # the analysis has no answer; what it found before that stands
        print('\n'.join(traceback.format_exc().splitlines()[-8:]))
        ck.undecided('internal', mod, 'analysis', repr(e)[:300])
    return ck.finish(**kw)


rc = [None]


def run():
    try:
        rc[0] = main()
    except MemoryError:
        pass


hard = resource.getrlimit(resource.RLIMIT_AS)[1]
if hard == resource.RLIM_INFINITY or hard > 20 << 30:
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, hard))
t = threading.Thread(target=run)
t.start()
t.join()
if rc[0] is None and CK:                        # out of memory: what was found before that stands
    gc.collect()
    CK[0].undecided('internal', 'memory', 'analysis', 'out of memory')
    rc[0] = CK[0].finish()
sys.stdout.flush()
os._exit(2 if rc[0] is None else rc[0])
