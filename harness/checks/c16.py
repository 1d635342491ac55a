from checks.slices import generate  # noqa: F401
