from egenerator.__about__ import __version__, __description__, __url__
