"""Behaviour-preserving edits of classes: construction order, list against loop, reordered independent calls."""

D_ = 'edpyt/dmft.py'
LOOP = """        for s in range(2):
            gfimp = Gfimp(n, nmats, U, beta, neig, adjust_neig, spin=s)
            gfimp.H = self.H[s]
            self.gfimp[s] = gfimp
"""
edit('dm4_order', D_, ("""        self.gfloc.set_local(Sigma)
        self.gfloc.update(mu)
""", """        self.gfloc.update(mu)
        self.gfloc.set_local(Sigma)
"""))
edit('dm4_store', D_, ("""            gfimp.H = self.H[s]
            self.gfimp[s] = gfimp
""", """            self.gfimp[s] = gfimp
            gfimp.H = self.H[s]
"""))
edit('dm4_append', D_, ("""        self.gfimp = [None, None]
""", ""), (LOOP, """        gfs = []
        for s in range(2):
            gfimp = Gfimp(n, nmats, U, beta, neig, adjust_neig, spin=s)
            gfimp.H = self.H[s, :, :]
            gfs.append(gfimp)
        self.gfimp = gfs
"""))
edit('dm4_comp', D_, ("""        self.gfimp = [None, None]
""", ""), (LOOP, """        def make(s):
            gfimp = Gfimp(n, nmats, U, beta, neig, adjust_neig, spin=s)
            gfimp.H = self.H[s]
            return gfimp
        self.gfimp = [make(s) for s in range(2)]
"""))
