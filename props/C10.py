"""C10 channels: waking and closing (see chan.py)"""
from dv.harness import *
from props.chan import *

PROOFS = ops("C10")
ASSUMPTIONS = ASSUME
