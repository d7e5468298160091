"""Compile the numba functions of the source tree once (import, then the lazily compiled ones)."""
import contextlib

import numpy as np

import acoular as ac

ac.config.global_caching = 'none'
rng = np.random.default_rng(0)


def run(f):
    with contextlib.suppress(Exception):
        f()


m = ac.MicGeom(pos_total=rng.uniform(-1, 1, (3, 4)))
g = ac.RectGrid(x_min=0, x_max=1, y_min=0, y_max=1, increment=0.5)
s = ac.TimeSamples(data=rng.standard_normal((300, 4)), sample_freq=1000.0)
w = ac.WNoiseGenerator(num_samples=100, sample_freq=1000.0)
run(lambda: list(ac.TimeConvolve(source=s, kernel=np.ones(5)).result(64)))
for p in ('loop', 'zeros'):
    run(lambda p=p: list(ac.PointSource(signal=w, mics=m, prepadding=p).result(64)))
for e in (ac.Environment(), ac.UniformFlowEnvironment(ma=0.2, fdv=(1.0, 0.0, 0.0))):
    st = ac.SteeringVector(grid=g, mics=m, env=e)
    run(lambda: (st.r0, st.rm))
    ps = ac.PowerSpectra(source=s, block_size=128, window='Hanning')
    for prec in ('complex128', 'complex64'):
        ps = ac.PowerSpectra(source=s, block_size=128, window='Hanning', precision=prec)
        run(lambda: (ps.csm, ps.eva))
    ps = ac.PowerSpectra(source=s, block_size=128, window='Hanning', cached=False)
    for typ in ('true level', 'inverse', 'classic', 'true location'):
        st.steer_type = typ
        for cls in (ac.BeamformerBase, ac.BeamformerCapon, ac.BeamformerEig, ac.BeamformerClean, ac.BeamformerDamas, ac.BeamformerCleansc):
            for rd in (True, False):
                def f(cls=cls, rd=rd):
                    b = cls(freq_data=ps, steer=st, cached=False)
                    if cls is not ac.BeamformerCapon:
                        b.r_diag = rd
                    if cls is ac.BeamformerDamas:
                        b.n_iter = 3
                    b.synthetic(100)
                run(f)
