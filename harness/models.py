"""Model checking runs (TLC) that establish the properties on the specification itself."""
import re

MODELS = {}


def run_model(engine, m, tier):
    raise NotImplementedError
