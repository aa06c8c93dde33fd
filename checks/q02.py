import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import *
from queuecheck import queue_check
run_check(lambda c: queue_check(c, "realtime", True), "Q02")
