"""P03: nothing lost or invented by normalising"""
import normcheck


def run(c):
    normcheck.run(c, "data")
