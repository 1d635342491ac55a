from checks.storage import generate  # noqa: F401
