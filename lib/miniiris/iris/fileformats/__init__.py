"""Stand-in for iris.fileformats."""
