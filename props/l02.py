from props import cli
from props.cli import ASSUMPTIONS
from props.cli import setup_l02 as setup  # noqa

BOUNDS = cli.BOUNDS_OF["L02"]
SCENARIOS = cli.L02
