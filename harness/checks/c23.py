from checks.units import generate  # noqa: F401
