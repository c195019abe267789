"""python run.py C01 [--tier quick|thorough] [--replay FILE]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core



def selftest():
    import glob
    import importlib
    core.prepare_import()
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c[0-9][0-9].py'))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        print(m.PID, m.LEVEL, sum(1 for _ in m.cases('quick')), 'cases')
    return 0


if __name__ == '__main__':
    if sys.argv[1:2] == ['--selftest']:
        sys.exit(selftest())
    rc = core.main(sys.argv[1].lower(), sys.argv[2:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
