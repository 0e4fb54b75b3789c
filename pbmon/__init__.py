""" Runtime monitors for probayes: generated workloads drive the real code, and
oracles that share no code with it judge every observed call. """
