from .life import generate  # noqa: F401
