import sys
from mc import core

if __name__ == '__main__':
    pid = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        sys.exit(core.replay(pid, sys.argv[3]))
    sys.exit(core.main(pid))
