from . import core, bus, messages, safety, backend, conc, lifecycle, pool, training, carry, network, wiring, handlers, creators, datasets, metrics, validators, monitoring, width  # noqa: F401
