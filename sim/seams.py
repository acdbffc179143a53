"""Components handed to the code under test through its own constructors, failing on command."""


class InjectedFault(Exception):
    pass


EXCEPTIONS = {
    "fault": lambda: InjectedFault("simulated component failure"),
    "memory": lambda: MemoryError("simulated"),
    "os": lambda: OSError(28, "simulated"),
    "value": lambda: ValueError("simulated"),
    "key": lambda: KeyError("simulated"),
    "recursion": lambda: RecursionError("simulated"),
}


class Faults:
    """Which call of which component fails; everything else is passed on."""

    def __init__(self, faults):
        self.todo = [dict(f) for f in faults]
        self.calls = {}
        self.fired = []  # those fired since last asked

    def around(self, where, function, *args, **kwargs):
        number = self.calls.get(where, 0) + 1
        self.calls[where] = number
        hit = None
        for fault in self.todo:
            if fault["where"] == where and fault["call"] == number:
                hit = fault
                break
        if hit is None:
            return function(*args, **kwargs)
        self.todo.remove(hit)
        if hit["when"] == "after":
            function(*args, **kwargs)
        error = EXCEPTIONS[hit["exc"]]()
        self.fired.append((hit, error))
        raise error

    def take(self):
        fired, self.fired = self.fired, []
        return fired


class Wrapped:
    """Passes everything on; the named methods can fail."""

    def __init__(self, inner, faults, name, methods):
        self.__dict__["_inner"] = inner
        self.__dict__["_faults"] = faults
        self.__dict__["_name"] = name
        self.__dict__["_methods"] = methods

    def __getattr__(self, attribute):
        value = getattr(self._inner, attribute)
        if attribute in self._methods:
            faults, name = self._faults, self._name

            def method(*args, **kwargs):
                return faults.around("%s.%s" % (name, attribute), value, *args, **kwargs)

            return method
        return value

    def __setattr__(self, attribute, value):
        setattr(self._inner, attribute, value)


WHERE = [
    "lexer.lex", "parser.parse", "factory.create", "constraints.var_value_constraint",
    "state.set_var", "state.set_constant", "state.get_var", "state.get_constant", "state.get_var_dict", "state.get_constant_dict", "rng",
]


def interpreter(engine, faults, **kwargs):
    """An interpreter all of whose components can fail; -> (interpreter, its variables)"""
    from python_dice.src.constraint.constraint_factory import ConstraintFactory

    lexer = Wrapped(engine.Lexer(), faults, "lexer", ("lex",))
    factory = Wrapped(engine.DistFactory(), faults, "factory", ("create",))
    constraints = Wrapped(ConstraintFactory(), faults, "constraints", ("var_value_constraint",))
    states = engine.StateFactory(factory, constraints)
    state = Wrapped(
        states.create_new_empty_set(), faults, "state",
        ("set_var", "set_constant", "get_var", "get_constant", "get_var_dict", "get_constant_dict"),
    )
    parser = Wrapped(engine.Parser(lexer, factory, states), faults, "parser", ("parse",))
    return (
        engine.Interpreter(parser=parser, starting_state=state, probability_distribution_state_factory=states, probability_distribution_factory=factory),
        state,
    )
