from checks.budget import layers, generate as _g
generate = lambda ctx: _g(ctx, layers, "layers")
