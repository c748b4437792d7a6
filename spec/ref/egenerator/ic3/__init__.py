from egenerator.ic3.reconstruction import EventGeneratorReconstruction
from egenerator.ic3.simulation import EventGeneratorSimulation

__all__ = [
    'EventGeneratorReconstruction',
    'EventGeneratorSimulation',
]
