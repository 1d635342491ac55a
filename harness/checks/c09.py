from checks.budget import columns, generate as _g
generate = lambda ctx: _g(ctx, columns, "columns")
