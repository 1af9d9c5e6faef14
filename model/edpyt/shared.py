import numpy as np
unsiged_dt = np.uint32
unsigned_one = unsiged_dt(1)
params = {'hfmode': False, 'mu': 0.0, 'z': None}
