"""Property registry: what each check runs."""
import importlib
import pkgutil

import props


class Source:
    """Executions of the real code that are judged by a trace module of the specification.

    cases: function (rng, tier) -> list of JSON cases, or
    gen:   (module, cfg function(tier)) enumerated by TLC; `adapt` turns its output into cases
    """
    def __init__(self, name, driver, trace, cases=None, gen=None, adapt=None, clauses=None,
                 constants='', case_timeout=30, total_timeout=600, shards=8, chunk=None,
                 rule='', env=None, heap='3g'):
        self.name = name
        self.driver = driver
        self.trace = trace
        self.cases = cases
        self.gen = gen
        self.adapt = adapt
        self.clauses = clauses
        self.constants = constants
        self.case_timeout = case_timeout
        self.total_timeout = total_timeout
        self.shards = shards
        self.chunk = chunk
        self.rule = rule
        self.env = env
        self.heap = heap

    def with_clauses(self, clauses, **kwargs):
        s = Source.__new__(Source)
        s.__dict__.update(self.__dict__)
        s.clauses = set(clauses) if clauses is not None else None
        s.__dict__.update(kwargs)
        return s


class Prop:
    def __init__(self, pid, sources, models=(), assumptions=(), level='model_checking',
                 level_note='', technique=''):
        self.pid = pid
        self.sources = list(sources)
        self.models = list(models)      # (module, cfg text or function(tier) -> cfg text or None)
        self.assumptions = list(assumptions)
        self.level = level
        self.level_note = level_note
        self.technique = technique


def load_all():
    registry = {}
    for info in pkgutil.iter_modules(props.__path__):
        mod = importlib.import_module('props.' + info.name)
        for prop in getattr(mod, 'PROPS', []):
            assert prop.pid not in registry, prop.pid
            registry[prop.pid] = prop
    return registry
