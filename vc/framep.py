"""Frame conditions (C27): of every operation under contract, the obligations about what it writes and what its goroutines share.

The sections are those of the other properties, run over the same code; what is kept of each is what it may modify.  An
operation that is called by contract is itself one of the sections, so no frame is taken for granted but those of the
standard library and of the models of it."""
import re
from .oblig import *

KEEP = re.compile(r"modifies |writes nothing|write only memory|keeps? (its|their) value|free list")


def frame_only(p, fn, *args):
    n = len(p.obs)
    fn(p, *args)
    obs = p.obs[n:]
    keep = [o for o in obs if KEEP.search(o.name) or o.status == UNDECIDED]
    del p.obs[n:]
    p.obs += keep
    if not keep:
        p.undecided("frame", "the run ended before its frame was determined")


def only(sections):
    return [(nm, frame_only, (fn,) + tuple(args)) for nm, fn, args in sections]
