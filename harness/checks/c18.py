from checks.integrate import generate  # noqa: F401
