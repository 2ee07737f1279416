"""C06: every atomic edit does to surface, data, zones and orientation what it says."""
from checks import edit_space

run_shard = edit_space.run_shard


def shards(tier):
    return edit_space.shards(tier, 'model')


def run_case(case, R):
    return edit_space.run_case(case, R, 'model')


def describe(tier):
    return edit_space.describe(tier, 'model')
