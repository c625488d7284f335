"""setup_cmd: build the tools from /repo once, so that the checks only rebuild what changed."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import CheckError, build

try:
    build()
except CheckError as e:
    print("error: %s" % e)
    sys.exit(2)
