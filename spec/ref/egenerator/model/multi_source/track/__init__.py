from egenerator.model.multi_source.track.stochastic_track import (
    StochasticTrackModel,
)

__all__ = [
    'StochasticTrackModel',
]
