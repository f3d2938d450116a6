"""C07: range queries return exactly the held items in the key interval"""
from lib.seq import program

ID = 'C07'
TECHNIQUE = 'runtime monitoring: model-based oracle over random operation histories'
RULE = (
    'random programs of feeds and range queries with every combination of options on one running stream under '
    'virtual time, over window bounds, item and key types and source classes; every outcome and '
    'every cursor is compared with a list model; a program is non-trivial if at least three '
    'different query shapes (operation, options, window size, cursor set) returned data'
)
ASSUMPTIONS = ['counts n >= 1 and steps >= 1', 'keys comparable with each other, not with None']
QUICK = 20000
THOROUGH = 400000
MIN = {'windows of thousands': 20, 'queries': 5000, 'queries finding nothing': 200}

WEIGHTS = dict(feed=3, read=1, cursor=1.5, drop=0.4, reader=0.3, range=10, tail=0.3)


def case(rng, ctx):
    program(rng, ctx, WEIGHTS, steps=(15, 50), mutate=0.3)
