from props import nxdlmodel
from props.nxdlmodel import ASSUMPTIONS, setup  # noqa

BOUNDS = nxdlmodel.BOUNDS_OF["N02"]
SCENARIOS = nxdlmodel.N02
