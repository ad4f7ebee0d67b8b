"""Explicit-state exploration of python-geotiepoints."""
