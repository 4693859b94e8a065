from props import cache
from props.cache import ASSUMPTIONS
from props.cache import setup as setup  # noqa

BOUNDS = cache.BOUNDS_OF["C03"]
SCENARIOS = cache.C03
