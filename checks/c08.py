"""C08: head and tail return the oldest and the newest held item"""
from lib.seq import program

ID = 'C08'
TECHNIQUE = 'runtime monitoring: model-based oracle over random operation histories'
RULE = (
    'random programs of feeds, head and tail queries and cursor moves on one running stream under '
    'virtual time, over window bounds, item and key types and source classes; every outcome and '
    'every cursor is compared with a list model; a program is non-trivial if at least three '
    'different query shapes (operation, options, window size, cursor set) returned data'
)
ASSUMPTIONS = ['counts n >= 1 and steps >= 1', 'keys comparable with each other, not with None']
QUICK = 20000
THOROUGH = 400000
MIN = {'windows of thousands': 20, 'queries': 5000, 'queries finding nothing': 200}

WEIGHTS = dict(feed=4, read=1, cursor=1.5, drop=1, reader=0.4, tail=6, head=4)


def case(rng, ctx):
    program(rng, ctx, WEIGHTS)
