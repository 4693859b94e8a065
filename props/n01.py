from props import nxdlmodel
from props.nxdlmodel import ASSUMPTIONS, setup  # noqa

BOUNDS = nxdlmodel.BOUNDS_OF["N01"]
SCENARIOS = nxdlmodel.N01
