def measure(prog, prop, mod, ctx):
    return {}
