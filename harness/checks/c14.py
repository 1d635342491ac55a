from checks.balance import generate
