import os
import sys

if __name__ == "__main__":
    from mc.core import main
    if sys.argv[1] == "--selftest":
        from mc.core import prepare
        prepare()
        print("ready")
        os._exit(0)
    code = main(sys.argv[1].upper(), sys.argv[2:])
    sys.stdout.flush()
    os._exit(code)
