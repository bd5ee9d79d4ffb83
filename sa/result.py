class Vanished(Exception):
    """a construct the rule is about does not exist any more"""


class Result:
    def __init__(self, rule, explanation=""):
        self.rule = rule
        self.explanation = explanation or rule
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self._keys = set()

    def bad(self, key, msg, where=""):
        key = key.replace(" ", "_")
        if key in self._keys:
            return
        self._keys.add(key)
        self.violations.append({"key": key, "msg": msg, "where": where})

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n
