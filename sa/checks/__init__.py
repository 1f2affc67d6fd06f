"""The checks, by property id."""
import importlib

MODULES = ("proxy", "wsgi", "config", "mpd", "segment", "times", "boxes", "chunks", "server", "lints", "tools", "analyzer", "timeline")
REGISTRY = {}
TECHNIQUE = {}


def check(pid, explanation, technique=None):
    def deco(fn):
        if technique:
            TECHNIQUE[pid] = technique
        REGISTRY[pid] = (fn, explanation)
        return fn
    return deco


def get(pid):
    for m in MODULES:
        importlib.import_module("sa.checks." + m)
    return REGISTRY[pid]
