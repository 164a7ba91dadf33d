"""W02: the recorded history is what was applied and measured."""
import W01


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'end':
            e['hist'][1] = [e['hist'][1][0] + 50, e['hist'][1][1]]
            return True
    return False


def run(ctx):
    W01.run(ctx, want=('hist',), n=28 if ctx.quick else 300, hist=True, corrupt=corrupt)
