import os
import sys
import warnings


def main():
    warnings.simplefilter('ignore')
    from lbverif import deps
    deps.ensure()
    argv = sys.argv[1:]
    if argv == ['--setup']:
        return 0
    # the code under test: always the working tree of the repository
    repo = os.environ.get('LBVERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    import lambeq
    assert os.path.realpath(lambeq.__file__).startswith(
        os.path.realpath(repo) + os.sep), lambeq.__file__
    from lbverif import runner
    if argv[:1] == ['--replay']:
        return runner.replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return runner.run(pid, tier, seed)


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
