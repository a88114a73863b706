import sys, importlib
from multiprocessing import Pool
sys.setrecursionlimit(20000)
import fw


def go(a):
    mod, i = a
    m = importlib.import_module('specs.' + mod)
    return fw.run_task(m.TASKS[i])


if __name__ == '__main__':
    mod = sys.argv[1]
    flt = sys.argv[2] if len(sys.argv) > 2 else ''
    v = '-v' in sys.argv
    m = importlib.import_module('specs.' + mod)
    idx = [i for i, t in enumerate(m.TASKS) if flt in t.name]
    if '-1' in sys.argv:
        for i in idx:
            fw.show(go((mod, i)), v)
    else:
        with Pool(8, maxtasksperchild=1) as p:
            for r in p.imap_unordered(go, [(mod, i) for i in idx]):
                fw.show(r, v)
