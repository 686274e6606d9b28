"""Questions about paths in real repositories."""
import sys

from .. import real
from . import p18
from .p18 import LISTS, REAL, STUBS, place, prepare, run  # noqa: F401

ID = 'P20'
TITLE = 'answers about a path in a repository are those of git for exactly that path'
SEEDS = (330, 9000)
VARIANTS = (2, 4)
REAL_COMPONENTS = p18.REAL_COMPONENTS
ASSUMPTIONS = p18.ASSUMPTIONS


def execute(plan, **kw):
    return real.execute(sys.modules[__name__], plan, **kw)


def gen(rng, tier):
    return p18.gen(rng, tier, asking=True)
