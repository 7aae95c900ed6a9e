import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)


def main():
    import driver, build
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    pid = a[0]
    tier = a[1] if len(a) > 1 else 'quick'
    only = a[2] if len(a) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    # private build directory: concurrent checks do not disturb each other
    import tempfile, shutil
    os.makedirs(os.path.join(build.V, 'build'), exist_ok=True)
    build.BUILD = tempfile.mkdtemp(prefix=pid + '.', dir=os.path.join(build.V, 'build'))
    try:
        rc = driver.check(pid, tier, seed, '-v' in sys.argv, only)
    except Exception:
        traceback.print_exc()
        print('INCONCLUSIVE property=%s internal error' % pid)
        rc = 0
    finally:
        if '-k' not in sys.argv:
            shutil.rmtree(build.BUILD, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()
