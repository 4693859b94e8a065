from props import cli
from props.cli import ASSUMPTIONS
from props.cli import setup as setup  # noqa

BOUNDS = cli.BOUNDS_OF["L03"]
SCENARIOS = cli.L03
