B = 'edpyt_backend/bath.c'
F = 'edpyt_backend/fit.c'
G = 'edpyt/cs_gaxpy.c'
edit('c_pow', B, ("pow(vk[j], 2)", "vk[j]*vk[j]"), ("cpow(z[i]-ek[j], 2)", "((z[i]-ek[j])*(z[i]-ek[j]))"))
edit('c_local', B, ("""        delta[i] = 0.;
        for (j=0; j<nbath; j++) {
            delta[i] += vk2[j] / (z[i] - ek[j]);
        }
""", """        double complex sum = 0.;
        for (j=0; j<nbath; j++) {
            sum += vk2[j] / (z[i] - ek[j]);
        }
        delta[i] = sum;
"""))
edit('c_nobuf', B, ("""    double* vk2 = vector(nbath);
    for (j=0; j<nbath; j++) {
        vk2[j] = pow(vk[j], 2);
    }
    for (i=0; i<nmats; i++) {
        delta[i] = 0.;
        for (j=0; j<nbath; j++) {
            delta[i] += vk2[j] / (z[i] - ek[j]);
        }
    }
    free(vk2);
""", """    for (i=0; i<nmats; i++) {
        delta[i] = 0.;
        for (j=0; j<nbath; j++) {
            delta[i] += vk[j]*vk[j] / (z[i] - ek[j]);
        }
    }
"""))
edit('c_helper', B, ("void eval_delta(double x[]) {", """static double* squares(const double* v) {
    double* s = vector(nbath);
    for (int j=0; j<nbath; j++)
        s[j] = v[j]*v[j];
    return s;
}


void eval_delta(double x[]) {"""), ("""    double* vk2 = vector(nbath);
    for (j=0; j<nbath; j++) {
        vk2[j] = pow(vk[j], 2);
    }
    for (i=0; i<nmats; i++) {
        delta""", """    double* vk2 = squares(vk);
    for (i=0; i<nmats; i++) {
        delta"""))
edit('c_while', B, ("""    for (int i=0; i<nmats; i++) {
        chi2 += pow(cabs(vals_true[i]-delta[i]), 2);
    }
    chi2 /= (double)nmats;
    return chi2;
""", """    for (int i=nmats-1; i>=0; i--) {
        double complex F = vals_true[i]-delta[i];
        chi2 += creal(F)*creal(F) + cimag(F)*cimag(F);
    }
    return chi2/nmats;
"""))
edit('c_grad', B, ("""    for (int i=0; i<nmats; i++) {
        F = vals_true[i]-delta[i];
        for (int k=0; k<n; k++) {
            dx[k] += creal(ddelta[i][k]) * creal(F) + cimag(ddelta[i][k]) * cimag(F);
        }
    }
    for (int k=0; k<n; k++) {
        dx[k] = -2.*dx[k]/(double)nmats;
    }
""", """    for (int k=0; k<n; k++) {
        for (int i=0; i<nmats; i++) {
            F = vals_true[i]-delta[i];
            dx[k] += creal(ddelta[i][k]) * creal(F) + cimag(ddelta[i][k]) * cimag(F);
        }
        dx[k] *= -2./(double)nmats;
    }
"""))
edit('c_grad2', B, ("""            dx[k] += creal(ddelta[i][k]) * creal(F) + cimag(ddelta[i][k]) * cimag(F);
""", """            dx[k] += creal(conj(F) * ddelta[i][k]);
"""))
edit('c_grad3', B, ("""        F = vals_true[i]-delta[i];
        for""", """        const double complex* row = ddelta[i];
        F = vals_true[i]-delta[i];
        for"""), ("creal(ddelta[i][k]) * creal(F) + cimag(ddelta[i][k]) * cimag(F)", "creal(row[k]) * creal(F) + cimag(row[k]) * cimag(F)"))
edit('c_init', B, ("""        for (j=1; j<nhalf-1; j++) {
            ek[j] = -BANDWIDTH + j*de;
            ek[nbath-j-1] = BANDWIDTH - j*de;
        }
""", """        for (j=1; j<nhalf-1; j++) {
            double e = BANDWIDTH - j*de;
            ek[j] = -e;
            ek[nbath-1-j] = e;
        }
"""), ("(!(nbath&1))&&", "nbath%2==0 && "))
edit('c_init2', B, ("double* vk = &x[nbath];", "double* vk = x + nbath;"), ("""    for (j=0; j<nbath; j++) {
        vk[j] = MAX(0.1, 1/sqrt((double)nbath));
    }
""", """    double v0 = 1/sqrt((double)nbath);
    if (v0 < 0.1) v0 = 0.1;
    for (j=0; j<nbath; j++)
        vk[j] = v0;
"""))
edit('c_ddelta', B, ("""            ddelta[i][j] = vk2[j] / cpow(z[i]-ek[j], 2);
            ddelta[i][j+nbath] = 2. * vk[j] / (z[i]-ek[j]);
""", """            denom = 1. / (z[i]-ek[j]);
            ddelta[i][j+nbath] = 2. * vk[j] * denom;
            ddelta[i][j] = vk2[j] * denom * denom;
"""))
edit('c_freq', F, ("""    for (int i=0; i<nmats; i++) {
        z[i] = (2*i+1) * PI/beta *I;
    }
""", """    const double step = PI/beta;
    for (int k=0; k<nmats; k++) {
        z[k] = I*(2*k*step + step);
    }
"""), ("int n  = 2 * nbath;", "const int n = nbath + nbath;"))
edit('c_gaxpy', G, ("""        {
    y [i] += Ax [p] * x [Ai [p]] ;
        }
""", """        {
          double a = Ax [p] ;
          csi j = Ai [p] ;
          y [i] += a * x [j] ;
        }
"""))
edit('c_gaxpy2', G, ("""  for (i = 0 ; i < m ; i++)
    {
      for (p = Ap [i] ; p < Ap [i+1] ; p++)
        {
    y [i] += Ax [p] * x [Ai [p]] ;
        }
    }
""", """  for (i = 0 ; i < m ; i++)
    {
      double s = y [i] ;
      const csi end = Ap [i+1] ;
      for (p = Ap [i] ; p < end ; p++)
          s += Ax [p] * x [Ai [p]] ;
      y [i] = s ;
    }
"""))
edit('c_saxpy', G, ("""      for (s = 0 ; s < n; s++)
        {
          y[i*n+s] += Ax [p] * x [Ai [p]*n+s] ;
        }
""", """      const double *xr = x + Ai [p]*n ;
      double *yr = y + i*n ;
      for (s = 0 ; s < n; s++)
        {
          yr[s] += Ax [p] * xr[s] ;
        }
"""))
edit('c_saxpy2', G, ("""  for (p = Ap [i] ; p < Ap [i+1] ; p++)
    {
      for (s = 0 ; s < n; s++)
        {
          y[i*n+s]""", """  for (s = 0 ; s < n; s++)
    {
      for (p = Ap [i] ; p < Ap [i+1] ; p++)
        {
          y[i*n+s]"""))
edit('c_ptrwalk', G, ("""      for (p = Ap [i] ; p < Ap [i+1] ; p++)
        {
    y [i] += Ax [p] * x [Ai [p]] ;
        }
""", """      p = Ap [i] ;
      while (p < Ap [i+1])
        {
          y [i] += Ax [p] * x [Ai [p]] ;
          p++ ;
        }
"""))
