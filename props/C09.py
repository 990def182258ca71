"""C09 channels: content and order (see chan.py)"""
from dv.harness import *
from props.chan import *

PROOFS = ops("C09") + [Proof("copy", p_copy, [COPY]), Proof("new", p_new(False), ["hev_task_channel_new_with_buffers"]), Proof("new unbuffered", p_new(True), ["hev_task_channel_new"])]
ASSUMPTIONS = ASSUME
