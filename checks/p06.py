"""P06: flattening"""
import flatcheck


def run(c):
    flatcheck.run(c, "flat")
