from egenerator.model.source.track.stochastic_segment import (
    StochasticTrackSegmentModel
)

__all__ = [
    'StochasticTrackSegmentModel',
]
