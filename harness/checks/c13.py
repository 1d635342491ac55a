from checks.vorticity import generate
