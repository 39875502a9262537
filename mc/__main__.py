import sys
from mc import core

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(core.replay(sys.argv[2]))
    sys.exit(core.main("mc." + sys.argv[1].lower(), sys.argv[2] if len(sys.argv) > 2 else "quick"))
