"""C21: prescribed fields of the parameterized problems."""
from checks import c15


def run(c):
    c15.run(c, "eval")
