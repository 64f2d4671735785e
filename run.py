import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import core  # noqa: E402
if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
