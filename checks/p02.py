"""P02: canonical normal form"""
import normcheck


def run(c):
    normcheck.run(c, "order")
