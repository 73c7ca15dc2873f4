"""What a check module declares, and the helpers its oracles use."""


class Violation(AssertionError):
    """The property does not hold for this case."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Reject(Exception):
    """The case lies outside the property's domain (counted, not judged)."""


class Sub:
    """One generated family of cases of a property.

    strategy: () -> Hypothesis strategy of JSON-able cases
    run(case, ctx): raises when the property does not hold
    nontrivial(case) -> bool, by `rule`
    classify(case) -> list of labels (distribution in the evidence)
    quick / thorough: number of generated cases of each tier
    """

    def __init__(self, name, strategy, run, rule, nontrivial=lambda c: True,
                 classify=lambda c: [], quick=400, thorough=None, shards=2,
                 timeout=120, flavour='plain', replays=3, env=None, known=None,
                 prepare=None, rlimit_gb=8):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.rule = rule
        self.nontrivial = nontrivial
        self.classify = classify
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.timeout = timeout
        self.flavour = flavour
        self.replays = replays
        self.env = env or {}
        # known(case) -> key of a listed known finding that covers the case
        self.known = known
        # prepare(scratch, builds) -> dict of str, put into the workers' env
        self.prepare = prepare
        self.rlimit_gb = rlimit_gb
