from vlib import wsgen


def run(ctx):
    wsgen.run(ctx, "C11")
