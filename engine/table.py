"""Units (contract harness x configuration) that decide each property."""
PROPS = {}
def prop(id, units, **kw): PROPS[id] = dict(units=units, **kw)
def U(file, name, flags='', tier='quick', **kw): return dict(file=file, name=name, flags=flags, tier=tier, **kw)
def O(*o): return '-DOPTS=' + ('|'.join('opts::' + x for x in o) if o else '0')

cons = []
for nd in (1, 2, 3):
    for o, q in [((), 1), (('nug',), 1), (('fct',), nd < 3), (('fct', 'iga'), nd < 3), (('abs', 'tot'), nd < 3), (('fct', 'iga', 'tot', 'nug', 'dfl'), nd < 3), (('fct', 'tot', 'pfc', 'nug'), nd < 2), (('fct', 'abs'), nd < 3), (('fct', 'div_2nd', 'div_3rd'), nd < 3), (('npa', 'dfl'), 1), (('khn', 'nug'), 1), (('iga', 'fct'), nd == 3)]:
        if (set(o) == {'khn', 'nug'}) : pass
        cons.append(U('conservation.cpp', 'cons%dd_%s' % (nd, '_'.join(o) or 'basic'), '-DND=%d %s' % (nd, O(*o)), 'quick' if q else 'thorough', cost=nd))
    cons.append(U('conservation.cpp', 'cons%dd_upwind' % nd, '-DND=%d -DNIT=1 -DNT=2' % nd, cost=nd))
    cons.append(U('conservation.cpp', 'cons%dd_it3' % nd, '-DND=%d -DNIT=3 %s' % (nd, O()), 'quick' if nd < 3 else 'thorough', cost=nd))
cons.append(U('conservation.cpp', 'cons1d_fct_it3', '-DND=1 -DNIT=3 ' + O('fct'))); cons.append(U('conservation.cpp', 'cons2d_fct_it3', '-DND=2 -DNIT=3 ' + O('fct'), cost=3))
prop('C01', cons)

bc = []
for halo in (1, 2):
    for nd in (1, 2, 3):
        for k in ('cyclic', 'open', 'rigid', 'gndsky'):
            if nd == 1 and k in ('rigid', 'gndsky'): continue
            bc.append(U('bcond.cpp', 'bc_%s%dd_h%d' % (k, nd, halo), '-DND=%d -DHALO=%d -DKIND=%s' % (nd, halo, k)))
    for nd in (2, 3): bc.append(U('bcond.cpp', 'bc_polar%dd_h%d' % (nd, halo), '-DND=%d -DHALO=%d -DKIND=polar -DDIM=%d' % (nd, halo, nd - 1)))
bc.append(U('bcond.cpp', 'bc_polar3d_in_y', '-DND=3 -DHALO=1 -DKIND=polar -DDIM=1'))
prop('C02', bc)

sch = []
def SC(nd, name, opts_, extra='', tier='quick', **kw): sch.append(U('scheme.cpp', 'sch%dd_%s' % (nd, name), '-DND=%d -DUPW -DFCT %s %s' % (nd, O(*opts_), extra), tier, **kw))
T_ = 'thorough'
for nd in (1, 2, 3):
    for o, q in [((), 0), (('nug',), 0), (('abs',), 0), (('iga',), 0), (('pfc', 'nug'), nd < 3), (('tot', 'dfl', 'nug'), 1), (('tot', 'dfl', 'abs'), 1), (('tot', 'dfl', 'iga', 'nug'), 1), (('tot', 'pfc', 'abs', 'nug'), nd < 2), (('khn', 'nug'), 1), (('npa', 'dfl'), 1)]:
        SC(nd, '_'.join(o) or 'basic', o, tier='quick' if q else T_)
    for o, q in [((), 0), (('nug',), 1), (('abs', 'nug'), 1), (('iga', 'nug'), 1), (('pfc',), 0)]:
        SC(nd, '_'.join(('d2',) + o), ('div_2nd',) + o, tier='quick' if q and nd == 2 else T_)
        SC(nd, '_'.join(('d3',) + o), ('div_2nd', 'div_3rd') + o, tier='quick' if q else T_)
        if nd > 1: SC(nd, '_'.join(('d3dt',) + o), ('div_2nd', 'div_3rd_dt') + o, tier='quick' if q else T_)
    for s in ('aver2', 'aver4'):
        SC(nd, 'd3_' + s, ('div_2nd', 'div_3rd', 'nug'), '-DSPTL=%s -DTMPRL=linear2' % s)
        if nd > 1: SC(nd, 'd3dt_' + s, ('div_2nd', 'div_3rd_dt', 'nug'), '-DSPTL=%s -DTMPRL=linear2' % s)
SC(2, 'fot', ('iga', 'tot', 'fot', 'nug')); SC(2, 'fot_d3', ('iga', 'div_2nd', 'div_3rd', 'fot'))
prop('C03', sch)

cmpu = []
def CM(nd, name, opts_, extra='', tier='quick', **kw): cmpu.append(U('compose.cpp', 'step%dd_%s' % (nd, name), '-DND=%d %s %s' % (nd, O(*opts_), extra), tier, **kw))
OP, RG = '-DBC=open', '-DBC=rigid'
CM(1, 'fct_iga', ('fct', 'iga'), '-DNEQ=2 -DNT=2'); CM(1, 'tot_dfl_fct_nug_open', ('tot', 'dfl', 'fct', 'nug'), '-DNIT=4 ' + OP); CM(1, 'khn', ('khn',), '-DNIT=1 -DNEQ=2')
CM(1, 'abs_it3', ('abs',), '-DNIT=3 -DNT=2 -DFREQ=2'); CM(1, 'd3_fct_nug', ('div_2nd', 'div_3rd', 'fct', 'nug'))
CM(2, 'basic', ()); CM(2, 'fct_iga_tot_dfl_nug', ('fct', 'iga', 'tot', 'dfl', 'nug')); CM(2, 'fct_abs_filter', ('fct', 'abs'), '-DNIT=3 -DFREQ=2 -DNT=2'); CM(2, 'fct_nug_open', ('fct', 'nug'), OP)
CM(2, 'd3_nug', ('div_2nd', 'div_3rd', 'nug')); CM(2, 'd3dt_nug_fct_delay', ('div_2nd', 'div_3rd_dt', 'nug', 'fct'), '-DNEQ=3 -DDELAY=2'); CM(2, 'fct_rigid', ('fct',), RG); CM(2, 'fct_iga_rigid', ('fct', 'iga'), RG); CM(2, 'fct_nug_tot_rigid', ('fct', 'nug', 'tot'), RG)
CM(2, 'dfl_it4', ('dfl', 'abs'), '-DNIT=4 ' + OP); CM(3, 'dfl_it4', ('dfl',), '-DNIT=4 ' + OP)
CM(3, 'nug_it3_open', ('nug',), '-DNIT=3 ' + OP); CM(3, 'nug_iga_rigid', ('nug', 'iga'), RG); CM(3, 'upwind', ('khn',), '-DNIT=1 -DNEQ=2')
CM(3, 'fct_iga', ('fct', 'iga')); CM(3, 'fct_nug', ('fct', 'nug'), '', 'thorough'); CM(3, 'fct_nug_open', ('fct', 'nug'), OP, 'thorough'); CM(3, 'fct_abs_rigid', ('fct', 'abs'), RG, 'thorough'); CM(3, 'd3dt_fct', ('div_2nd', 'div_3rd_dt', 'fct'), '', 'thorough')
prop('C04', cmpu)

lim = []
def LM(nd, name, opts_, extra='', tier='quick', **kw): lim.append(U('limiter.cpp', 'fct%dd_%s' % (nd, name), '-DND=%d %s %s' % (nd, O('fct', *opts_), extra), tier, **kw))
for nd in (1, 2, 3):
    LM(nd, 'basic', ()); LM(nd, 'iga_nug', ('iga', 'nug')); LM(nd, 'abs_nug_open', ('abs', 'nug'), '-DBC=open'); LM(nd, 'it3_nug', ('nug',), '-DNIT=3', 'quick' if nd < 3 else 'thorough'); LM(nd, 'iga_tot_dfl_open', ('iga', 'tot', 'dfl'), '-DBC=open', 'quick' if nd < 3 else 'thorough')
    LM(nd, 'abs_it4', ('abs',), '-DNIT=4', 'quick' if nd < 3 else 'thorough'); LM(nd, 'd3', ('div_2nd', 'div_3rd'), '', 'quick' if nd < 3 else 'thorough')
prop('C05', lim)

uni = []
def UN(nd, name, opts_, extra='', tier='quick', **kw): uni.append(U('uniform.cpp', 'uni%dd_%s' % (nd, name), '-DND=%d %s %s' % (nd, O(*opts_), extra), tier, **kw))
A4 = '-DSPTL=aver4'
UN(1, 'basic', ()); UN(1, 'fct_abs_nug_it3', ('fct', 'abs', 'nug'), '-DNIT=3'); UN(1, 'pfc_dfl_fct_open', ('pfc', 'dfl', 'fct'), OP); UN(1, 'd3', ('div_2nd', 'div_3rd', 'nug'), A4)
UN(2, 'nug', ('nug',)); UN(2, 'fct_nug_open', ('fct', 'nug'), OP); UN(2, 'tot_dfl_iga', ('tot', 'dfl', 'iga')); UN(2, 'd3', ('div_2nd', 'div_3rd'), A4); UN(2, 'd3_nug_fct_open', ('div_2nd', 'div_3rd', 'nug', 'fct'), A4 + ' ' + OP)
UN(2, 'd3_iga', ('div_2nd', 'div_3rd', 'iga'), A4); UN(2, 'npa_khn_it3', ('npa', 'khn'), '-DNIT=3'); UN(2, 'pfc_tot_nug_fct_it4_open', ('pfc', 'tot', 'nug', 'fct'), '-DNIT=4 ' + OP); UN(2, 'd3dt_abs', ('div_2nd', 'div_3rd_dt', 'abs'), A4)
UN(3, 'fct_nug_open', ('fct', 'nug'), OP); UN(3, 'd2_nug_it3', ('div_2nd', 'nug'), '-DNIT=3'); UN(3, 'dfl_abs_it3', ('dfl', 'abs'), '-DNIT=3'); UN(3, 'iga_tot_dfl_nug', ('iga', 'tot', 'dfl', 'nug')); UN(3, 'd3', ('div_2nd', 'div_3rd'), A4, T_); UN(3, 'fct_tot_nug', ('fct', 'tot', 'nug'), '', T_); UN(3, 'd3dt_fct', ('div_2nd', 'div_3rd_dt', 'fct'), A4, T_)
prop('C06', uni)

stp = []
def ST(nd, name, opts_, extra='', tier='quick', **kw): stp.append(U('stepping.cpp', 'step%dd_%s' % (nd, name), '-DND=%d %s %s' % (nd, O(*opts_), extra), tier, **(dict(covers=['init']) if 'INIT=1' in extra else {}), **kw))
ST(1, 'd3_delay_scale', ('div_2nd', 'div_3rd'), '-DNEQ=3 -DDELAY=2 -DSCALE=2'); ST(1, 'vardt', (), '-DVARDT=1 -DORD=1'); ST(1, 'vardt_nug_ord3', ('nug',), '-DVARDT=1 -DORD=3'); ST(1, 'd3_vargc', ('div_2nd', 'div_3rd'), '-DVARGC=1')
ST(2, 'vardt_nug_ord2', ('nug',), '-DVARDT=1 -DORD=2'); ST(2, 'delay_scale', (), '-DNEQ=4 -DDELAY=6 -DSCALE=1'); ST(3, 'vardt_ord0', (), '-DVARDT=1 -DORD=0 -DVARGC=0'); ST(3, 'vardt_nug_d3dt', ('nug', 'div_2nd', 'div_3rd_dt'), '-DVARDT=1 -DORD=1 -DNEQ=2 -DDELAY=1')
ST(1, 'init_vardt_nug', ('nug',), '-DVARDT=1 -DINIT=1'); ST(1, 'init_d3_open', ('div_2nd', 'div_3rd'), '-DINIT=1 -DBC=open'); ST(2, 'init_vardt_nug', ('nug',), '-DVARDT=1 -DINIT=1'); ST(2, 'init_vardt_dfl_open', ('dfl',), '-DVARDT=1 -DINIT=1 -DBC=open'); ST(2, 'init_vardt_d3', ('div_2nd', 'div_3rd'), '-DINIT=1 -DVARDT=1')
ST(3, 'init_vardt_nug_dfl', ('nug', 'dfl'), '-DVARDT=1 -DINIT=1'); ST(3, 'init_nug_open', ('nug',), '-DINIT=1 -DBC=open'); ST(3, 'init_vardt_nug', ('nug',), '-DVARDT=1 -DINIT=1')
prop('C07', stp)

thr = []
def TD(nd, name, opts_, extra='', tier='quick', **kw): thr.append(U('threads.cpp', 'thr%dd_%s' % (nd, name), '-DND=%d %s %s' % (nd, O(*opts_), extra), tier, **kw))
TD(1, 'basic', ()); TD(1, 'fct_iga_tot_dfl_nug', ('fct', 'iga', 'tot', 'dfl', 'nug'), '-DNIT=3')
TD(2, 'basic', ()); TD(2, 'fct_iga_nug', ('fct', 'iga', 'nug')); TD(2, 'fct_abs_delay', ('fct', 'abs'), '-DNIT=3 -DNEQ=2 -DDELAY=1 -DNT=2'); TD(2, 'fct_tot_rigid', ('fct', 'tot'), RG); TD(2, 'nug_it3_open', ('nug',), '-DNIT=3 ' + OP)
TD(3, 'fct_iga', ('fct', 'iga')); TD(3, 'nug_open', ('nug',), OP); TD(3, 'fct_tot_rigid', ('fct', 'tot'), RG); TD(3, 'fct_abs_it3', ('fct', 'abs'), '-DNIT=3')
for t in ('boost_thread', 'cxx11_thread', 'openmp'):
    f = '-DTEAM=%s' % t + (' -DTEAM_OMP' if t == 'openmp' else '')
    for nd in (1, 2, 3): thr.append(U('team.cpp', 'team%dd_%s' % (nd, t), '-DND=%d -DTH=5 %s' % (nd, f)))
    if t != 'boost_thread': TD(1, t, (), f); TD(2, 'fct_iga_' + t, ('fct', 'iga'), f); TD(3, t, (), f, T_)
for nd in (1, 2, 3): thr.append(U('team.cpp', 'reduce%dd' % nd, '-DND=%d -DTH=3 -DREDUCE' % nd))
thr.append(U('slab.cpp', 'slab')); thr.append(U('barrier.cpp', 'barrier'))
prop('C08', thr)

rhs = []
def RH(nd, name, scheme, extra='', tier='quick', **kw): rhs.append(U('rhs.cpp', 'rhs%dd_%s' % (nd, name), '-DND=%d -DSCHEME=%s %s' % (nd, scheme, extra), tier, **kw))
for s in ('euler_a', 'euler_b', 'trapez', 'mixed'):
    RH(1, s, s); RH(2, s + '_norhs_delay', s, '-DNORHS=2 -DDELAY=1 -DNEQ=3'); RH(3, s, s); RH(1, s + '_vardt', s, '-DVARDT=1'); RH(2, s + '_open', s, OP)
prop('C09', rhs)

vip = []
def VP(nd, name, extra='', opts_=(), tier='quick', **kw): vip.append(U('vip.cpp', 'vip%dd_%s' % (nd, name), '-DND=%d %s %s' % (nd, O(*opts_), extra), tier, **kw))
D3_ = ('div_2nd', 'div_3rd')
VP(1, 'basic'); VP(1, 'mom', '-DDENS=2'); VP(1, 'vardt', '-DVARDT=1'); VP(1, 'd3', '', D3_); VP(1, 'd3_vardt', '-DVARDT=1', D3_)
VP(2, 'basic'); VP(2, 'impl', '-DVAB=impl'); VP(2, 'expl', '-DVAB=expl'); VP(2, 'nug', '', ('nug',)); VP(2, 'mom', '-DDENS=1'); VP(2, 'mom_eps', '-DDENS=2'); VP(2, 'vardt_mom', '-DVARDT=1 -DDENS=2', cost=3)
VP(2, 'd3', '', D3_); VP(2, 'd3dt_vardt', '-DVARDT=1', ('div_2nd', 'div_3rd_dt'), cost=4, tier=T_); VP(2, 'd3_mom', '-DDENS=1', D3_); VP(2, 'euler_a_open', '-DSCHEME=euler_a ' + OP); VP(2, 'euler_b_rigid_nug', '-DSCHEME=euler_b ' + RG, ('nug',)); VP(2, 'impl_nug_rigid', '-DVAB=impl ' + RG, ('nug',))
VP(3, 'basic'); VP(3, 'impl_nug', '-DVAB=impl', ('nug',)); VP(3, 'd3', '', D3_, cost=2); VP(3, 'expl_open', '-DVAB=expl ' + OP); VP(3, 'mom_eps', '-DDENS=2')
prop('C10', vip)

prs = []
def PR(nd, name, extra='', opts_=(), tier='quick', **kw): prs.append(U('prs.cpp', 'prs%dd_%s' % (nd, name), '-DND=%d %s %s' % (nd, O(*opts_), extra), tier, **kw))
PR(2, 'cyclic'); PR(2, 'cyclic_nug', '', ('nug',)); PR(2, 'open_nug', OP, ('nug',)); PR(2, 'rigid', RG); PR(2, 'impl', '-DVAB=impl'); PR(2, 'impl_rigid_nug', '-DVAB=impl ' + RG, ('nug',)); PR(2, 'expl_open', '-DVAB=expl ' + OP)
PR(3, 'rigid', RG, cost=4); PR(3, 'open', OP, cost=4); PR(3, 'cyclic', '', tier=T_, cost=6)
for s, k in (('mr', 1), ('cr', 1), ('gcrk', 2), ('gcrk', 3), ('gcrk', 4), ('pc', 1)):
    for nd in (2, 3):
        if k == 4 and nd == 3: continue
        for i in (0, 1): prs.append(U('prsloop.cpp', 'loop%dd_%s%s%s' % (nd, s, k if k > 1 else '', '_ini' if i else ''), '-DND=%d -DSCHEME=%s -DKIT=%d -DSIMPLE=%d' % (nd, s, k, i), 'quick' if nd == 2 and i == 0 or k == 3 and nd == 2 else T_))
prop('C11', prs)
