"""Stand-in for the parts of cartopy that IMPROVER uses."""
__version__ = "0.19.0"
import cartopy.crs  # noqa: E402,F401
