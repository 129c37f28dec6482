import sys

from .core import main

if __name__ == "__main__":
    # one module object for the framework, also when run with -m
    sys.exit(main(sys.argv[1:]))
