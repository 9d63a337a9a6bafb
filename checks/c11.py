"""C11: what the Python module acquires it gives back exactly once, on every path."""
import c10
import pyapi


def run(P, R):
    c10.run(P, R, pyapi.REFRULES)
