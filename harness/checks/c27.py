from checks.extract import generate  # noqa: F401
