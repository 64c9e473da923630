"""Capture search: Grep.tla."""
from vf import grep


def run(ctx):
    return grep.run(ctx, "capture")
