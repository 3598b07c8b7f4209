"""Static-analysis engine for galgebra: loader, value-flow abstract interpreter, rules.

Nothing in this package imports or runs galgebra; it only parses its source.
"""
