"""Diagnostics."""
from rules import conform

LEVEL = "other"
EXPLANATION = conform.TEXT
ASSUMPTIONS = []


def run(P, ctx):
    conform.run_region(P, ctx)
