from props import cli
from props.cli import ASSUMPTIONS, setup  # noqa

BOUNDS = cli.BOUNDS_OF["L01"]
SCENARIOS = cli.L01
