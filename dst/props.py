"""The property checks: workload, faults and oracle of each."""
import base, p_build, p_cmds
try:
    import p_dev
except ImportError:
    p_dev = None

ALL = {}
for m in (p_build, p_cmds, p_dev):
    if m is not None:
        for c in m.CHECKS:
            ALL[c.id] = c
