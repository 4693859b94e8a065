from props import treeview
from props.treeview import setup  # noqa

BOUNDS = treeview.BOUNDS_OF["T01"]
ASSUMPTIONS = ["names that are not UTF-8 text, and datasets whose values HDF5 cannot read, are outside"]
SCENARIOS = treeview.T01
