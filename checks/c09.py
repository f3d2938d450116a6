"""C09: read honours its count, strictness and missing-data options"""
from lib.seq import program

ID = 'C09'
TECHNIQUE = 'runtime monitoring: model-based oracle over random operation histories'
RULE = (
    'random programs of feeds, reads with every combination of options and reader defaults, cursor moves on one running stream under '
    'virtual time, over window bounds, item and key types and source classes; every outcome and '
    'every cursor is compared with a list model; a program is non-trivial if at least three '
    'different query shapes (operation, options, window size, cursor set) returned data'
)
ASSUMPTIONS = ['counts n >= 1 and steps >= 1', 'keys comparable with each other, not with None']
QUICK = 20000
THOROUGH = 400000
MIN = {'windows of thousands': 20, 'queries': 5000, 'queries finding nothing': 200}

WEIGHTS = dict(feed=4, read=8, next=3, next_method=1.5, cursor=1, drop=0.5, reader=0.3, range=0.3,
               tail=0.3)


def case(rng, ctx):
    program(rng, ctx, WEIGHTS, mutate=0.3)
