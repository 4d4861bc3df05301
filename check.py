"""Entry point: python check.py Cxx [--tier quick|thorough] [--replay FILE]"""

import sys

sys.dont_write_bytecode = True

import core  # noqa: E402  pylint: disable=wrong-import-position

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
