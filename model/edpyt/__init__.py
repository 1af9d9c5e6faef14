import numpy as np
'Unsigned dtype'
unsiged_dt = np.uint32
