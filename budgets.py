"""Numbers of generated cases per campaign (quick tier).

dbg/rel/tsan: seeded random cases per library configuration; fuzz: executions
of the coverage-guided campaign; thorough: multiplier for the thorough tier.
"""
DEFAULT_BUDGET = {"dbg": 400000, "rel": 400000, "tsan": 0, "plain": 0, "plaindbg": 150000,
                  "fuzz": 400000, "thorough": 12}

BUDGETS = {
    "C22": {"dbg": 16000, "rel": 16000, "plaindbg": 4000, "fuzz": 8000},
    "C21": {"dbg": 200000, "rel": 200000, "plaindbg": 80000, "fuzz": 150000},
    "C28": {"dbg": 8000, "rel": 8000, "plaindbg": 2000, "fuzz": 0},
    "C24": {"plain": 200000},
    "C25": {"tsan": 20000, "dbg": 40000, "rel": 40000, "fuzz": 10000},
    "C29": {"plain": 1200, "fuzz": 0, "thorough": 6},
    "C26": {"plain": 600, "fuzz": 0, "thorough": 6},
    "C31": {"dbg": 150000, "rel": 150000, "plaindbg": 50000, "fuzz": 100000},
    "C32": {"dbg": 80000, "rel": 80000, "tsan": 40000, "fuzz": 10000},
    "C33": {"dbg": 100000, "rel": 100000, "tsan": 60000, "fuzz": 20000},
    "C10": {"dbg": 40000, "rel": 40000, "tsan": 20000, "fuzz": 40000},
}
