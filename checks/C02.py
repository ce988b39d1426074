from checks import C01


def run(ctx):
    C01.run(ctx, "C02")
