from .symmetry import generate_for
generate = generate_for("north")
