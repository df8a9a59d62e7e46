"""Static analyser for python-sortedcontainers (see ../DESIGN.md)."""
