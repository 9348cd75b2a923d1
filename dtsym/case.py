"""Description of one harness instance."""


class Case:

    def __init__(self, name, function, params=None, bounds="", tier="quick",
                 budget=None, max_ticks=20000, max_choose=600, max_paths=None,
                 solver_timeout=60, replay_timeout=30, weight=1):
        self.name = name
        self.function = function
        self.params = params or {}
        self.bounds = bounds
        self.tier = tier
        self.budget = budget
        self.max_ticks = max_ticks
        self.max_choose = max_choose
        self.max_paths = max_paths
        self.solver_timeout = solver_timeout
        self.replay_timeout = replay_timeout
        self.weight = weight
