from checks.difference import generate  # noqa: F401
