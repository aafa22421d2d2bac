from . import terms, match, prog, builtins, execute, transform, measure, recipe, goal, coarse, order, printing, observe, query, trees, compare, tyan, bounds, rounds  # noqa: F401
