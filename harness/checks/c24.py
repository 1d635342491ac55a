from checks.budget import generate_forced as generate
