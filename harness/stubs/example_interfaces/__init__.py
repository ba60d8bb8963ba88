"""Minimal offline stand-in for example_interfaces (not installed in this sandbox)."""
