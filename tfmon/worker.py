import sys

from . import core

if __name__ == "__main__":
    core.worker_main(sys.argv[1:])
