"""worker process: installs detsched, imports the code under test, drives it, writes traces (one JSON per line)"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))


def library_failed(e, repo):
    """
    did the drive end because the code under test raised, or returned something no user could go on with, where it
    never may? Not so if it is the harness that failed (out of memory, a file, a private name it relied upon).
    """
    if isinstance(e, (MemoryError, OSError, ImportError, RecursionError)):
        return False
    if isinstance(e, AttributeError) and str(getattr(e, 'name', '') or '').startswith('_'):
        return False
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(os.path.join(repo, 'satella') + os.sep):
            return True
        last = fn
        tb = tb.tb_next
    return isinstance(e, (TypeError, AttributeError, ValueError, AssertionError)) and os.sep + 'checks' + os.sep in (last or '')


def main():
    prop, part, tier, seed, shard, nshards, seqfile, out = sys.argv[1:9]
    repo = os.environ.get('VERIF_REPO', '/repo')
    sys.path.insert(0, repo)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    import logging
    import detsched
    detsched.install()
    detsched.TRACE_DIRS = (os.path.join(repo, 'satella') + os.sep,)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    import drive
    w = drive.Worker(prop, part, tier, int(seed), int(shard), int(nshards), seqfile, out)
    import satella
    assert os.path.realpath(satella.__file__).startswith(os.path.realpath(repo)), satella.__file__
    mod = importlib.import_module('checks.' + prop)
    try:
        getattr(mod, 'gen_' + part)(w)
    except drive.EnoughHangs:
        pass
    except Exception as e:  # noqa
        if not library_failed(e, repo):
            raise
        import traceback
        w.boom(''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    w.close()
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    try:
        main()
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(3)
