"""C08: MTIE and TIErms have the value numbers of their definitions."""
from devs import *

EXPLANATION = "as C06, for MTIE (extrema of windows of m+1 samples) and TIErms."


def obligations(tier):
    return definition_obligations(["mtie", "tierms"], tier)
