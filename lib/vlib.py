"""Shared by the code which runs in zygote children."""
import base64
SCRATCH = None
class Violation(Exception):
    """The property does not hold for this case."""
def b64(b): return base64.b64encode(bytes(b)).decode()
def unb64(s): return base64.b64decode(s)
