from checks.rearrange import generate
