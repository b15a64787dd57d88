"""C06: value numbers of ADEV OADEV HDEV OHDEV MDEV TDEV PDEV GCODEV GRADEV are
those of the published definitions, for a symbolic record, record length,
averaging factor and rate."""
from devs import *

EXPLANATION = ("one abstract pass over each estimator with symbolic record x[0..N), record length N, averaging factor m and "
               "rate; loops and reductions are summarised as closed sums; the resulting value numbers are compared with those "
               "of the published definition (sa/ref).")


def obligations(tier):
    return definition_obligations(["adev", "oadev", "hdev", "ohdev", "mdev", "tdev", "pdev", "gcodev", "gradev"], tier)
