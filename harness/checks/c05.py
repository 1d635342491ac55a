from .symmetry import generate_for
generate = generate_for("rotate")
