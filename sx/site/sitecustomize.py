# z3 comes from the verification tools' environment, searched last
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
