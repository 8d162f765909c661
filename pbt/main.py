import importlib
import sys

from . import boot  # noqa: F401
from . import engine


def get_check(prop):
    return importlib.import_module('pbt.checks.' + prop.lower())


def main(argv):
    if argv and argv[0] == '--selftest':
        print("dfols imported from", boot.dfols.__file__)
        return 0
    if argv and argv[0] == '--replay':
        return engine.replay(argv[1], get_check)
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else 'quick'
    return engine.run_check(prop, tier, get_check(prop))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
