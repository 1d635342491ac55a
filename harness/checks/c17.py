from checks.packaging import generate  # noqa: F401
