import dataclasses
import typing as tp


@dataclasses.dataclass
class Harness:
    name: str
    fn: tp.Callable
    quick: tp.List[dict]                # list of parameter sets (bounds); each explored fully
    thorough: tp.List[dict] = None
    labels: tp.Tuple[str, ...] = ()     # vacuity: every label must be reached on a feasible path
    bounds: str = ''
    max_decisions: int = 3000
    hang_s: float = 20.0

    def params(self, tier):
        if tier == 'thorough' and self.thorough is not None:
            return self.thorough
        return self.quick


class Registry:
    """collects the harnesses of one property"""

    def __init__(self, prop, assumptions=()):
        self.prop = prop
        self.harnesses = []
        self.assumptions = list(assumptions)

    def harness(self, quick=None, thorough=None, labels=(), bounds='', **kw):
        def deco(fn):
            self.harnesses.append(Harness(fn.__name__, fn, quick or [{}], thorough, tuple(labels),
                                          bounds or (fn.__doc__ or '').strip(), **kw))
            return fn

        return deco
