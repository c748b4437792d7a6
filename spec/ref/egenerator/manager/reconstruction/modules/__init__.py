from .reconstruction import Reconstruction, SelectBestReconstruction
from .covariance import CovarianceMatrix
from .fit_quality import GoodnessOfFit
from .opening_angle import CircularizedAngularUncertainty
from .mcmc import MarkovChainMonteCarlo
from .visualization import Visualize1DLikelihoodScan

__all__ = [
    'Reconstruction',
    'SelectBestReconstruction',
    'CovarianceMatrix',
    'GoodnessOfFit',
    'CircularizedAngularUncertainty',
    'MarkovChainMonteCarlo',
    'Visualize1DLikelihoodScan',
]
