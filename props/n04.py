from props import nxdlmodel
from props.nxdlmodel import ASSUMPTIONS, setup  # noqa

BOUNDS = nxdlmodel.BOUNDS_OF["N04"]
SCENARIOS = nxdlmodel.N04
