from checks.globe import generate  # noqa: F401
