from checks.constructor import generate
