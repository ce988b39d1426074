from checks import C07


def run(ctx):
    C07.run(ctx, "C08")
