"""C07: total-type deviations and Theo1 have the value numbers of their
published definitions."""
from devs import *

EXPLANATION = ("as C06, for TOTDEV, MTOTDEV, TTOTDEV, HTOTDEV and THEO1; averaging factors are covered by the regimes m=1, "
               "m=2p and m=2p+1 with p>=1 symbolic.")


def obligations(tier):
    return definition_obligations(["totdev", "mtotdev", "ttotdev", "htotdev", "theo1"], tier)
