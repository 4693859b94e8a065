from props import nxdlmodel
from props.nxdlmodel import ASSUMPTIONS, setup  # noqa

BOUNDS = nxdlmodel.BOUNDS_OF["N03"]
SCENARIOS = nxdlmodel.N03
