from checks.vertical import generate
