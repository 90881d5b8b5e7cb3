"""What each property's check runs: models (TLC on the specification alone), drivers (steps of
the real library, decided by TLC)."""
ELL = dict(mod='drv_ell', trace='TraceEllCalc')


def ell(fun, **k):
    return dict(ELL, fun=fun, **k)


PROPS = {}
for _p, _fun, _n, _part, _c, _r in (('P10', 'rho', 400, 'support', 800, 800), ('P11', 'mink_ext', 100, 'ext', 500, 500),
                                    ('P12', 'mink_int', 100, 'int', 150, 100), ('P13', 'internal', 200, 'member', 40, 80),
                                    ('P14', 'bigger', 200, 'bigger', 290, 290), ('P15', 'polar', 200, 'polar', 70, 70),
                                    ('P16', 'proj', 200, 'proj', 300, 600), ('P17', 'boundary', 40, 'bound', 170, 340),
                                    ('P06', 'chars', 200, 'chars', 30, 30), ('P31', 'neg', 100, 'neg', 40, 40)):
    PROPS[_p] = dict(models=[dict(mod='MC_EllCalc', id='cases', part=_part, expect=_c, workers=4)],
                     drivers=[ell(_fun, min=_n), ell('replay', gen='cases', min=_r)])
GENLIB = dict(mod='MC_Library', cfg='MC_Library_gen', id='gen', simulate=(120, 4000, 16), printgen=True)
MCLIB = [dict(mod='MC_Library', id='mc', expect=3000, tiers=('quick',)),
         dict(mod='MC_Library', cfg='MC_Library_thorough', id='mct', expect=20000, workers=4, tiers=('thorough',)),
         GENLIB]
BROKEN = [dict(mod='MC_Library', cfg='MC_Library_no' + k, id='no' + k, reject=True) for k in ('in', 'out', 'new')]
REPLAY = dict(mod='drv_lib', fun='replay', trace='TraceLibrary', gen='gen', min=500)


def lib(fun, **k):
    return dict(dict(mod='drv_lib', fun=fun, trace='TraceLibrary'), **k)


PROPS.update({
    'P01': dict(models=MCLIB, drivers=[lib('config', min=2000), REPLAY]),
    'P03': dict(models=MCLIB + BROKEN, drivers=[lib('heap', min=2000), REPLAY]),
    'P04': dict(models=MCLIB, drivers=[lib('copies', min=2000), REPLAY]),
})


def args(fun, **k):
    return dict(dict(mod='drv_args', fun=fun, trace='TraceArgs'), **k)


PROPS.update({
    'P02': dict(models=[dict(mod='MC_Args', id='cases', expect=1000)],
                drivers=[args('replay', gen='cases', min=1000), args('histories', min=1000)]),
    'P05': dict(models=[dict(mod='MC_Args', id='cases', part='ctor', expect=700)],
                drivers=[args('ctor', min=1000), args('ctor_replay', gen='cases', min=700)]),
})


def cmp_(fun, **k):
    return dict(dict(mod='drv_cmp', fun=fun, trace='TraceCompare'), **k)


PROPS.update({
    'P07': dict(models=[dict(mod='MC_Compare', id='cases', part='objects', expect=3000)],
                drivers=[cmp_('equal', min=1000), cmp_('equal_replay', gen='cases', min=3000)]),
    'P08': dict(models=[dict(mod='MC_Compare', id='cases', part='arrays', expect=3000)],
                drivers=[cmp_('arel', min=2000), cmp_('arel_replay', gen='cases', min=3000)]),
    'P09': dict(models=[dict(mod='MC_Compare', id='cases', part='trees', expect=5000)],
                drivers=[cmp_('dicts', min=2000), cmp_('dicts_replay', gen='cases', min=5000)]),
})


def hyp(fun, **k):
    return dict(dict(mod='drv_hyp', fun=fun, trace='TraceHyper'), **k)


PROPS.update({
    'P28': dict(models=[dict(mod="MC_Hyper", id="cases", expect=800)],
                drivers=[hyp('geometry', min=1500), hyp('replay', gen='cases', min=800)]),
})


def com(fun, **k):
    return dict(dict(mod='drv_com', fun=fun, trace='TraceCommon'), **k)


PROPS.update({
    'P29': dict(models=[dict(mod='MC_Common', id='cases', expect=4000)],
                drivers=[com('member', min=1000), com('member_replay', gen='cases', min=4000), com('names', min=400), com('numeric', min=300)]),
})


def lia(fun, **k):
    return dict(dict(mod='drv_la', fun=fun, trace='TraceLinAlg'), **k)


for _p, _part, _fun, _n, _c in (('P24', 'transport', 'transport', 1000, 200), ('P25', 'matrices', 'matrices', 1500, 300), ('P26', 'sorting', 'sorting', 1000, 1000)):
    PROPS[_p] = dict(models=[dict(mod='MC_LinAlg', id='cases', part=_part, expect=_c)],
                     drivers=[lia(_fun, min=_n), lia('replay', gen='cases', min=_c)])


def pag(fun, **k):
    return dict(dict(mod='drv_pages', fun=fun, trace='TracePages'), **k)


PROPS.update({
    'P22': dict(models=[dict(mod='MC_Pages', id='cases', part='algebra', expect=250)],
                drivers=[pag('algebra', min=1500), pag('replay', gen='cases', min=1500)]),
    'P23': dict(models=[dict(mod='MC_Pages', id='cases', part='formulas', expect=200)],
                drivers=[pag('formulas', min=800), pag('replay', gen='cases', min=600)]),
})


def sym(fun, **k):
    return dict(dict(mod='drv_sym', fun=fun, trace='TraceSymText'), **k)


PROPS.update({
    'P27': dict(models=[dict(mod='MC_SymText', id='cases', expect=2000)],
                drivers=[sym('texts', min=1500), sym('replay', gen='cases', min=2000)]),
})


def mesh(fun, **k):
    return dict(dict(mod='drv_mesh', fun=fun, trace='TraceMesh'), **k)


PROPS.update({
    'P18': dict(models=[dict(mod='MC_Mesh', id='cases', part='refinement', expect=1200)],
                drivers=[mesh('refinement', min=300), mesh('replay', gen='cases', min=800)]),
    'P19': dict(models=[dict(mod='MC_Mesh', id='cases', part='incidence', expect=1200)],
                drivers=[mesh('incidence', min=1000), mesh('replay', gen='cases', min=250)]),
    'P20': dict(models=[dict(mod='MC_Surface', id='cases', part='partitions', expect=3)],
                drivers=[mesh('partitions', min=300), mesh('surface_replay', gen='cases', min=200)]),
    'P30': dict(models=[dict(mod='MC_Surface', id='cases', part='tubes', expect=5000, workers=4)],
                drivers=[mesh('tubes', min=80), mesh('surface_replay', gen='cases', min=30)]),
})


def sup(fun, **k):
    return dict(dict(mod='drv_sup', fun=fun, trace='TraceSupGeom'), **k)


PROPS.update({
    'P21': dict(models=[dict(mod='MC_SupGeom', id='cases', part='x', expect=4000, workers=4)],
                drivers=[sup('boundary', min=200), sup('difference', min=150), sup('replay', gen='cases', min=700)]),
})


PROPS['P32'] = dict(models=[dict(mod='MC_Domain', id='cases', expect=40000, workers=4)],
                    drivers=[dict(mod='drv_dom', fun='arguments', trace='TraceDomain', gen='cases', min=40000)])
