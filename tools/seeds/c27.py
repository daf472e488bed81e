import os; exec(open(os.path.join(os.path.dirname(spec), 'common.py')).read())
_r = os.path.join(os.path.dirname(spec), '..', '..', 'replay')
DEMO = open(_r + '/C27.c').read(); FILES = {k: open(_r + '/' + k).read() for k in ('api.h', 'solve.h')}
SEEDS = [
dict(id='c27-aux-owner', prop='C27', needs='solves of two handles with surface kernels, one after the other, whose azimuth quadratures lie at the same place in memory at different times',
 breaks='the trigonometric tables of the surface kernels are only filled when the azimuth quadrature is another one than at the last call by any handle', demo=DEMO, files=FILES,
 edits=[('src/xrtm_brdf.c', '''     int i;

     for (i = 0; i < n_quad; ++i)
          aux->cos_theta[i] = qx[i];

     for (i = 0; i < n_quad; ++i) {
          aux->sin_theta [i] = sqrt(1. - aux->cos_theta[i]*aux->cos_theta[i]);
          aux->tan_theta [i] = aux->sin_theta[i] / aux->cos_theta[i];
          aux->tan_theta2[i] = aux->tan_theta[i] * aux->tan_theta[i];
     }

     for (i = 0; i < n_kernel_quad; ++i) {''', '''     int i;

     static double *last = NULL;

     for (i = 0; i < n_quad; ++i)
          aux->cos_theta[i] = qx[i];

     for (i = 0; i < n_quad; ++i) {
          aux->sin_theta [i] = sqrt(1. - aux->cos_theta[i]*aux->cos_theta[i]);
          aux->tan_theta [i] = aux->sin_theta[i] / aux->cos_theta[i];
          aux->tan_theta2[i] = aux->tan_theta[i] * aux->tan_theta[i];
     }

     if (last == aux->cos_phi)
          return;

     last = aux->cos_phi;

     for (i = 0; i < n_kernel_quad; ++i) {''')]),
dict(id='c27-shared-aux', prop='C27', needs='two handles with surface kernels in two threads building their kernel matrices at the same time',
 breaks='the per-angle intermediates of the surface kernels are kept in one object that all threads share', demo=DEMO, files=FILES,
 edits=[('src/xrtm_brdf.c', '''     kernel_aux_data aux2;

     init_array3_d(kernel_f, n_kernel_quad * 2 + 1, n_quad1, n_quad2, 0.);''', '''     static kernel_aux_data aux2;

     init_array3_d(kernel_f, n_kernel_quad * 2 + 1, n_quad1, n_quad2, 0.);''')]),
]
