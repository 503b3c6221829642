"""Calls into the code under test through its public API."""
from . import env, world

env.load()
from lazy_type_hint import LazyTypeHint, ParsingStrategies  # noqa: E402

_strategies = {}


def strategies(config):
    key = tuple(sorted(config.items(), key=lambda kv: kv[0]))
    if key not in _strategies:
        _strategies[key] = ParsingStrategies(**config)
    return _strategies[key]


def text_of(value, config, name="X"):
    return LazyTypeHint(strategies(config)).from_data(value, class_name=name).to_string()


def text(expr, config, name="X"):
    return text_of(world.build(expr), config, name)
