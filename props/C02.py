"""C02 which task is picked, and what virtual time it is charged"""
from props.C01 import proofs, ASSUMPTIONS as A1

PROOFS = proofs(('order',), ("kernel", "wakeup", "run"))
ASSUMPTIONS = A1 + ["the default configuration: no scheduler clock, each time slice counts 1 (CONFIG_SCHED_CLOCK=CLOCK_NONE)"]
