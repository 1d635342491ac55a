from checks.budget import waves, generate as _g
generate = lambda ctx: _g(ctx, waves, "waves")
