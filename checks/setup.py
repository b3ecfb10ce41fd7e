"""Builds the framework (driver and CLI) offline from the committed files and /repo's working tree."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vcommon as v

try:
    v.build_drv()
    v.build_mac()
    v.build_cli()
    v.canary()
finally:
    v.cleanup()
print("setup: ok")
