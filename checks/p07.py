"""P07: unflattening"""
import flatcheck


def run(c):
    flatcheck.run(c, "unflat")
