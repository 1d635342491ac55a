from .family import generate  # noqa: F401
