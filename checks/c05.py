"""C05: every history of atomic edits leaves a valid mesh (real Grid, breadth-first)."""
import itertools

from mc import mesh, edits, env
from mc.core import require, Violation
from checks import edit_space

run_shard = edit_space.run_shard
PART = 'valid'


def shards(tier):
    return edit_space.shards(tier, 'valid')


def run_case(case, R):
    return edit_space.run_case(case, R, 'valid')


def describe(tier):
    return edit_space.describe(tier, 'valid')
