import sys

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
