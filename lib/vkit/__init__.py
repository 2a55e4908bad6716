"""Driver side of the conformance machinery: recording traces of the real code."""
from vkit.enc import *  # noqa: F401,F403
