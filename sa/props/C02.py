"""Electrical law of every element in the original (un-relaxed) network."""
from ._el import *

def run(ctx):
    laws(ctx, ALL)
