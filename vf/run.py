import sys

from vf.core import main, worker_main

if sys.argv[1:2] == ["--worker"]:
    worker_main(sys.argv[2:])
else:
    sys.exit(main(sys.argv[1:]))
