"""C11 channels: select (see chan.py)"""
from dv.harness import *
from props.chan import *

PROOFS = ops("C11") + [Proof(f"{n}{t}", f("C11", l), [f"hev_task_channel_select_{n}"]) for n, f in (("add", p_add), ("del", p_del)) for l, t in ((True, ""), (False, ", peer gone"))]
PROOFS += [Proof("selector", p_selnew, ["hev_task_channel_select_new", "hev_task_channel_select_destroy"])]
PROOFS += [Proof(f"select {w} {k}", p_select(w, k), [f"hev_task_channel_select_{w}"]) for w in ("read", "write") for k in ("zero", "positive", "negative")]
ASSUMPTIONS = ASSUME
