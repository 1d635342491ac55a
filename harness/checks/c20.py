from .barotropic import generate_for
generate = generate_for("C20")
