from checks.usergrid import generate
