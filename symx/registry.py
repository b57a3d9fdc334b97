from .checks import prop, job

NM = {'nomerge': ['@check_termination']}
# concrete matrices used where P/A are fixed and vectors are symbolic
M22a = {'P_0_0': 4, 'P_0_1': 1, 'P_1_1': 2, 'A_0_0': 1, 'A_0_1': 1, 'A_1_0': 1, 'A_1_1': 0}
LP22 = {'A_0_0': 1, 'A_0_1': 2, 'A_1_0': -1, 'A_1_1': 1}
# scaled problem: all Ruiz norms are perfect squares, q concrete (the cost scaling depends on it)
SC22 = {'P_0_0': 16, 'P_0_1': 0, 'P_1_1': 1, 'A_0_0': 4, 'A_0_1': 1, 'A_1_0': -2, 'A_1_1': 4, 'q_0': 3, 'q_1': -1}

T = dict(tier='thorough', budget=300)
D1 = {'P_0_0': 2, 'A_0_0': 1}          # one variable, one constraint
D1S = {'P_0_0': 16, 'A_0_0': 4, 'q_0': 8}   # scales exactly
D1T = {'P_0_0': '1/16', 'A_0_0': '1/4', 'q_0': '1/8'}   # the same with scaling factors and cost factor above one
N1 = dict(n=1, m=1, Pm=1, Am=1)


def solve(pid, name, **kw):
    kw.setdefault('budget', 60)
    c = dict(NM)
    c.update(kw.pop('cfg', {}))
    job(pid, name, 'h_solve.c', cfg=c, **kw)


D0 = {'P_0_0': 1, 'A_0_0': 1}
prop('P01')
for g in range(9):
    job('P01', 'settings%d' % g, 'h_valid.c', what=0, group=g, fix=D0, budget=60)
D22 = {'P_0_0': 4, 'P_0_1': 1, 'P_1_1': 2, 'A_0_0': 1, 'A_0_1': 2, 'A_1_0': 3, 'A_1_1': 1}
job('P01', 'pair48', 'h_valid.c', what=0, gmask=48, fix=D0, budget=60)
job('P01', 'pair34', 'h_valid.c', what=0, gmask=34, fix=D0, budget=60)
job('P01', 'pair9', 'h_valid.c', what=0, gmask=9, fix=D0, budget=60)
job('P01', 'pair96', 'h_valid.c', what=0, gmask=96, fix=D0, budget=60)
job('P01', 'pair18', 'h_valid.c', what=0, gmask=18, fix=D0, budget=60)
job('P01', 'pair65', 'h_valid.c', what=0, gmask=65, fix=D0, budget=60)
job('P01', 'pair10', 'h_valid.c', what=0, gmask=10, fix=D0, budget=60)
job('P01', 'pair24', 'h_valid.c', what=0, gmask=24, fix=D0, budget=60)
job('P01', 'pair40', 'h_valid.c', what=0, gmask=40, fix=D0, budget=60)
job('P01', 'pair17', 'h_valid.c', what=0, gmask=17, fix=D0, budget=60)
job('P01', 'pair33', 'h_valid.c', what=0, gmask=33, fix=D0, budget=60)
job('P01', 'pair3', 'h_valid.c', what=0, gmask=3, fix=D0, budget=60)
job('P01', 'pair66', 'h_valid.c', what=0, gmask=66, fix=D0, budget=60)
job('P01', 'pair72', 'h_valid.c', what=0, gmask=72, fix=D0, budget=60)
job('P01', 'pair80', 'h_valid.c', what=0, gmask=80, fix=D0, budget=60)
job('P01', 'bounds', 'h_valid.c', what=2, sel=0, n=1, m=2, Pm=1, Am=3, fix=D22, budget=60)
job('P01', 'shapes', 'h_valid.c', what=2, sel=1, n=2, m=1, Pm=15, Am=3, fix=D22, budget=60)
job('P01', 'triu', 'h_valid.c', what=2, sel=2, n=2, m=1, Pm=15, Am=3, fix=D22, budget=60)
job('P01', 'triuunsorted', 'h_valid.c', what=2, sel=2, n=3, m=1, Pm=281, unsorted=1, Am=3, fix=dict(D22, P_2_2='1/8'), budget=60)
job('P01', 'triudiag', 'h_valid.c', what=2, sel=2, n=2, m=1, Pm=9, Am=3, fix=D22, budget=60)
job('P01', 'missing', 'h_valid.c', what=2, sel=3, fix=D0, budget=60)
job('P01', 'missingm0', 'h_valid.c', what=2, sel=0, m=0, fix=D0, budget=60)
job('P01', 'nosolver', 'h_valid.c', what=3, fix=D0, budget=60)
prop('P02')
for g in (0, 1, 3, 4, 5):
    job('P02', 'group%d' % g, 'h_valid.c', what=1, group=g, fix=D0, budget=60)
    job('P02', 'solved%d' % g, 'h_valid.c', what=1, group=g, solved=1, polishing=1, adaptive_rho=1, fix=D0, budget=60)
job('P02', 'indirect', 'h_valid.c', what=1, group=3, linsys=2, fix=D0, budget=60)
job('P02', 'pair45', 'h_valid.c', what=1, gmask=48, otherlinsys=0, fix=D0, budget=60)
job('P02', 'pair03', 'h_valid.c', what=1, gmask=9, otherlinsys=0, linsys=2, fix=D0, budget=60)
job('P02', 'pairm10', 'h_valid.c', what=1, gmask=10, otherlinsys=0, fix=D0, budget=60)
job('P02', 'pairm24', 'h_valid.c', what=1, gmask=24, otherlinsys=0, fix=D0, budget=60)
job('P02', 'pairm34', 'h_valid.c', what=1, gmask=34, otherlinsys=0, fix=D0, budget=60)
job('P02', 'pairm17', 'h_valid.c', what=1, gmask=17, otherlinsys=0, fix=D0, budget=60)
job('P02', 'pairm33', 'h_valid.c', what=1, gmask=33, otherlinsys=0, fix=D0, budget=60)
job('P02', 'pairm3', 'h_valid.c', what=1, gmask=3, otherlinsys=0, fix=D0, budget=60)
job('P02', 'pair14', 'h_valid.c', what=1, group=1, group2=4, fix=D0, budget=60)
job('P02', 'pair35', 'h_valid.c', what=1, group=3, group2=5, fix=D0, budget=60)

prop('P03')
solve('P03', 'symeps', what=1, fix=dict(M22a, q_0=1, q_1=-2), symeps=1, check_dualgap=0)
solve('P03', 'eqfree', what=1, fix=dict(M22a, q_0=1), check_dualgap=0, types=43)
solve('P03', 'm0', what=1, fix=M22a, m=0)
solve('P03', 'one', what=1, fix=D1, check_dualgap=0, **N1)
solve('P03', 'onewarm', what=1, fix=D1, ws=3, check_dualgap=0, **N1)
solve('P03', 'onegap', what=1, fix=D1, types=1, check_dualgap=1, **N1)
solve('P03', 'onegapup', what=1, fix=D1, types=2, check_dualgap=1, **N1)
solve('P03', 'onelp', what=1, fix=dict(D1, P_0_0=0), ws=1, check_dualgap=0, n=1, m=1, Pm=0, Am=1)
solve('P03', 'indirect', what=1, fix=D1, linsys=2, check_dualgap=0, **N1)
solve('P03', 'onescaled', what=1, fix=D1S, ws=3, scaling=1, check_dualgap=0, **N1)
solve('P03', 'onescaledgap', what=1, fix=D1S, ws=3, types=1, scaling=1, check_dualgap=1, **dict(T, **N1))
solve('P03', 'oneup', what=1, fix=D1T, ws=3, scaling=1, check_dualgap=0, **N1)
solve('P03', 'oneupgap', what=1, fix=dict(D1T, x0_0='1/2'), ws=3, types=1, scaling=1, check_dualgap=1, **N1)
solve('P03', 'oneupgapx', what=1, fix=dict(D1T, y0_0=1), ws=3, types=2, scaling=1, check_dualgap=1, **N1)
solve('P03', 'scgap1', what=1, fix=dict(D1S, y0_0=-1), ws=3, types=1, scaling=1, check_dualgap=1, **N1)
solve('P03', 'gapxpx', what=1, fix=dict(D1, q_0=-1, x0_0=1), ws=3, types=1, check_dualgap=1, **N1)
solve('P03', 'scterm', what=1, fix=D1S, ws=3, scaling=1, scaled_termination=1, check_dualgap=0, **N1)
solve('P03', 'sctermup', what=1, fix=D1T, ws=3, scaling=1, scaled_termination=1, check_dualgap=0, **N1)
solve('P03', 'sctermgap', what=1, fix=dict(D1S, y0_0=-1), ws=3, types=1, scaling=1, scaled_termination=1, check_dualgap=1, **N1)
solve('P03', 'sctermgapup', what=1, fix=dict(D1T, y0_0=1), ws=3, types=2, scaling=1, scaled_termination=1, check_dualgap=1, **N1)
solve('P03', 'gapfixq', what=1, fix=dict(M22a, q_0=1, q_1=-2), check_dualgap=1, types=0)
solve('P03', 'iter2', what=1, fix=D1, max_iter=2, check_dualgap=0, **dict(T, **N1))
solve('P03', 'nogap', what=1, fix=M22a, check_dualgap=0, **T)
solve('P03', 'types', what=1, fix=M22a, check_dualgap=0, types=12, **T)
solve('P03', 'eqfreeq', what=1, fix=M22a, check_dualgap=0, types=43, **T)
solve('P03', 'lp', what=1, fix=LP22, Pm=0, check_dualgap=0, **T)
solve('P03', 'warm', what=1, fix=M22a, ws=3, check_dualgap=0, **T)
solve('P03', 'gap', what=1, fix=M22a, check_dualgap=1, **T)
solve('P03', 'scaled', what=1, fix=SC22, ws=3, check_dualgap=0, scaling=1, **T)
solve('P03', 'scaledgap', what=1, fix=SC22, ws=3, check_dualgap=1, scaling=1, **T)
solve('P03', 'symPA', what=1, **dict(T, **N1))

prop('P04')
PI = {'A_0_0': 1, 'A_0_1': 2, 'A_1_0': 1, 'A_1_1': 2, 'P_0_0': 4, 'P_0_1': 1, 'P_1_1': 2}
PIS = {'A_0_0': 4, 'A_1_0': 4, 'P_0_0': 16}
PI1 = {'A_0_0': 1, 'A_1_0': 1, 'P_0_0': 4}
NP1 = dict(n=1, m=2, Pm=1, Am=3)
solve('P04', 'symeps', what=8, fix=dict(PI, q_0=0, q_1=0), types=21, symepsinf=1, check_dualgap=0)
solve('P04', 'one', what=8, fix=PI1, types=21, check_dualgap=0, **NP1)
solve('P04', 'onetwo', what=8, fix=PI1, types=0, check_dualgap=0, **NP1)
solve('P04', 'oneeq', what=8, fix=dict(PI1, q_0=0), types=33, check_dualgap=0, **NP1)
solve('P04', 'onewarm', what=8, fix=PI1, types=21, ws=3, check_dualgap=0, **NP1)
solve('P04', 'onescaled', what=8, fix=dict(PIS, q_0=8), types=21, scaling=1, check_dualgap=0, **NP1)
solve('P04', 'scdiff', what=8, fix=dict(A_0_0='1/16', A_1_0='1/4', P_0_0='1/16', q_0='1/8'), types=21, scaling=1, eps_prim_inf=0.5, check_dualgap=0, **NP1)
solve('P04', 'scdiff2', what=8, fix=dict(A_0_0=4, A_1_0=16, P_0_0=16, q_0=8, l_0=-1, u_0=1), types=0, scaling=1, eps_prim_inf=9, check_dualgap=0, **NP1)
solve('P04', 'onefree', what=8, fix=dict(A_0_0=1, A_1_0=1, A_2_0=1, P_0_0=4), n=1, m=3, Pm=1, Am=7, types=421, check_dualgap=0)
solve('P04', 'scaledterm', what=8, fix=dict(A_0_0=4, A_1_0=64, P_0_0=16, q_0=8), types=21, scaling=1, scaled_termination=1, slack=100, check_dualgap=0, **NP1)
solve('P04', 'onesided', what=8, fix=PI, types=21, check_dualgap=0, **T)
solve('P04', 'twosided', what=8, fix=PI, types=0, check_dualgap=0, **T)
solve('P04', 'eq', what=8, fix=PI, types=33, check_dualgap=0, **T)
prop('P05')
DI = {'P_0_0': 2, 'A_0_0': 1, 'A_0_1': 0, 'A_1_0': 1, 'A_1_1': 1}
solve('P05', 'm1', what=16, fix={'P_0_0': 2, 'A_0_0': 1, 'A_0_1': 2}, m=1, Pm=1, Am=3, types=0, check_dualgap=0)
solve('P05', 'lp', what=16, fix={'A_0_0': 1, 'A_0_1': 2}, m=1, Pm=0, Am=3, types=2, check_dualgap=0)
solve('P05', 'warm', what=16, fix={'A_0_0': 1}, n=1, m=1, Pm=0, Am=1, types=1, ws=3, check_dualgap=0)
solve('P05', 'symeps', what=16, fix=dict(DI, q_0=0), Pm=1, types=20, symepsinf=1, check_dualgap=0)
solve('P05', 'm0', what=16, fix=dict(P_0_0=2), m=0, Pm=1, check_dualgap=0)
solve('P05', 'scaled', what=16, fix=dict(A_0_0=4, q_0=-8), n=1, m=1, Pm=0, Am=1, types=1, ws=3, scaling=1, check_dualgap=0)
solve('P05', 'scaledterm', what=16, fix=dict(A_0_0=4, q_0=-8), n=1, m=1, Pm=0, Am=1, types=1, ws=3, scaling=1, scaled_termination=1, slack=100, check_dualgap=0)
solve('P05', 'scaled2', what=16, fix=dict(P_0_0=16, A_0_0=4, A_1_0=0, A_0_1=0, A_1_1=4, q_0=0, q_1=-3), Pm=1, types=10, ws=3, scaling=1, check_dualgap=0)
solve('P05', 'scE', what=16, fix=dict(A_0_0=4, q_0=-8), n=1, m=1, Pm=0, Am=1, types=0, eps_dual_inf=3, ws=3, scaling=1, check_dualgap=0)
solve('P05', 'scEup', what=16, fix=dict(A_0_0='1/4', q_0='-1/8'), n=1, m=1, Pm=0, Am=1, types=2, eps_dual_inf='1/3', ws=3, scaling=1, check_dualgap=0)
solve('P05', 'scElow', what=16, fix=dict(A_0_0=4, q_0=8), n=1, m=1, Pm=0, Am=1, types=1, eps_dual_inf=3, ws=3, scaling=1, check_dualgap=0)
solve('P05', 'base', what=16, fix=DI, Pm=1, types=10, check_dualgap=0, **T)
solve('P05', 'upper', what=16, fix=DI, Pm=1, types=20, check_dualgap=0, **T)
DC1 = {'P_0_0': 1, 'A_0_0': 4, 'q_0': 2}            # with one scaling pass: D = E = 1/2 and cost scaling exactly 1
DAD = dict(D1, q_0=3, l_0=-1, u_0=1, x0_0=0, y0_0=0)
prop('P06')
solve('P06', 'one', what=64, fix=D1, check_dualgap=0, **N1)
solve('P06', 'onewarm', what=64, fix=D1, ws=3, check_dualgap=0, **N1)
solve('P06', 'onesc', what=64, fix=D1S, ws=3, check_dualgap=0, scaling=1, **N1)
solve('P06', 'oneup', what=64, fix=D1T, ws=3, check_dualgap=0, scaling=1, **N1)
solve('P06', 'gap', what=64, fix=dict(D1, q_0=1, x0_0='1/2'), ws=3, types=1, check_dualgap=1, blim=1000, **N1)
solve('P06', 'gapsc', what=64, blim=1000, fix=dict(D1S, x0_0='1/2'), ws=3, types=1, check_dualgap=1, scaling=1, **N1)
solve('P06', 'gapup', what=64, blim=1000, fix=dict(D1T, x0_0='1/2'), ws=3, types=2, check_dualgap=1, scaling=1, **N1)
solve('P06', 'gaptwo', what=64, fix=dict(D1, q_0=1, y0_0=1, u_0=2), ws=3, check_dualgap=1, blim=1000, **N1)
solve('P06', 'gapxpx', what=64, fix=dict(D1, q_0=-1, x0_0=1), ws=3, types=1, check_dualgap=1, blim=1000, **N1)
solve('P06', 'scterm', what=64, fix=D1S, ws=3, scaling=1, scaled_termination=1, check_dualgap=0, **N1)
solve('P06', 'sctermgap', what=64, fix=dict(D1T, y0_0=1), ws=3, types=2, blim=1000, scaling=1, scaled_termination=1, check_dualgap=1, **N1)
solve('P06', 'check0', what=65, fix=D1, ws=3, check_termination=0, check_dualgap=0, **N1)
solve('P06', 'check2', what=64, fix=D1, ws=1, check_termination=2, check_dualgap=0, **N1)
FS = dict(D1, l_0=-1, u_0=1)
solve('P06', 'stop', what=16384, fix=dict(FS, q_0=1, y0_0=1), ws=3, max_iter=2, check_dualgap=0, **N1)
solve('P06', 'stopq', what=16384, fix=dict(FS, y0_0=0), ws=2, max_iter=2, check_dualgap=0, **N1)
solve('P06', 'stop3', what=16384, budget=120, fix=dict(FS, q_0=1, y0_0=0), ws=3, max_iter=3, k1=2, check_termination=2, check_dualgap=0, **N1)
solve('P06', 'stop31', what=16384, budget=120, fix=dict(FS, q_0=1, y0_0=0), ws=3, max_iter=3, k1=1, check_termination=2, check_dualgap=0, **N1)
solve('P06', 'stop0', what=16384, fix=dict(FS, q_0=1, y0_0=0), ws=3, max_iter=2, k1=1, check_termination=0, check_dualgap=0, **N1)
solve('P06', 'stoppi', what=16384, fix=dict(A_0_0=1, A_1_0=1, P_0_0=4, q_0=0, l_0=3), n=1, m=2, Pm=1, Am=3, types=21, max_iter=2, check_dualgap=0)
solve('P06', 'stopdi', what=16384, fix={'A_0_0': 1, 'x0_0': 0, 'y0_0': 0, 'l_0': -1}, n=1, m=1, Pm=0, Am=1, types=1, ws=3, max_iter=2, check_dualgap=0)
PIC = {'A_0_0': 1, 'A_1_0': 1, 'P_0_0': 4, 'q_0': 0}
solve('P06', 'pinf', what=8192, fix=PIC, n=1, m=2, Pm=1, Am=3, types=21, ws=2, check_dualgap=0)
solve('P06', 'pinftwo', what=8192, fix=PIC, n=1, m=2, Pm=1, Am=3, types=0, check_dualgap=0)
solve('P06', 'pinfsc', what=8192, fix={'A_0_0': 4, 'A_1_0': 4, 'P_0_0': 16, 'q_0': 8}, n=1, m=2, Pm=1, Am=3, types=21, ws=2, scaling=1, check_dualgap=0)
solve('P06', 'pinfproj', what=8192, fix={'A_0_0': 1, 'P_0_0': 4, 'q_0': 0}, n=1, m=2, Pm=1, Am=1, types=21, ws=2, check_dualgap=0)
solve('P06', 'pinfprojl', what=8192, fix={'A_0_0': 1, 'P_0_0': 4, 'q_0': 0}, n=1, m=2, Pm=1, Am=1, types=12, ws=2, check_dualgap=0)
solve('P06', 'dinf', what=8192, fix={'A_0_0': 1}, n=1, m=1, Pm=0, Am=1, types=1, ws=3, check_dualgap=0)
solve('P06', 'dinf2', what=8192, fix={'P_0_0': 2, 'A_0_0': 1, 'A_0_1': 2, 'q_0': 0}, m=1, Pm=1, Am=3, types=2, check_dualgap=0)
solve('P06', 'dinfsc', what=8192, fix={'A_0_0': 4, 'q_0': -8}, n=1, m=1, Pm=0, Am=1, types=1, ws=3, scaling=1, check_dualgap=0)
solve('P06', 'dinfscp', what=8192, fix=dict(P_0_0=16, A_0_0=4, A_1_0=0, A_0_1=0, A_1_1=4, q_0=0, q_1=-3), Pm=1, types=10, ws=3, scaling=1, check_dualgap=0)
solve('P06', 'types', what=64, fix=M22a, types=12, check_dualgap=0)
solve('P06', 'scaled', what=64, fix=SC22, ws=3, check_dualgap=0, scaling=1, **T)
solve('P06', 'cone', what=64, fix=DC1, ws=3, check_dualgap=0, scaling=1, **N1)
solve('P06', 'conegap', what=64, blim=1000, fix=dict(DC1, x0_0='1/2'), ws=3, types=1, check_dualgap=1, scaling=1, **N1)
solve('P06', 'adapt', what=65, fix=DAD, symeps=1, max_iter=2, adaptive_rho=1, ar_interval=1, ar_tolerance='1.01', check_dualgap=1, **N1)
solve('P06', 'adaptc2', what=65, fix=DAD, symeps=1, max_iter=2, adaptive_rho=1, ar_interval=1, ar_tolerance='1.01', check_termination=2, check_dualgap=0, **N1)
solve('P06', 'base', what=64, fix=M22a, check_dualgap=0, **T)
solve('P06', 'warm', what=64, fix=M22a, ws=3, check_dualgap=0, **T)
solve('P06', 'lp', what=64, fix=LP22, Pm=0, check_dualgap=0, **T)
prop('P07')
FB = dict(M22a, l_0=-1, u_0=1, l_1=-2, u_1=3)
solve('P07', 'restypes', what=2, fix=M22a, types=12, check_dualgap=0, blim=1000)
solve('P07', 'n1', what=2+512, fix=D1, check_dualgap=0, blim=1000, **N1)
solve('P07', 'n1low', what=2+512, fix=D1, types=1, ws=3, check_dualgap=0, blim=1000, **dict(T, **N1))
solve('P07', 'n1up', what=2+512+4096, fix=D1, types=2, check_dualgap=0, blim=1000, **N1)
solve('P07', 'n1scaled', what=2+512+4096, fix=D1S, scaling=1, check_dualgap=0, blim=1000, **N1)
solve('P07', 'scterm', what=2+512, fix=D1S, scaling=1, scaled_termination=1, check_dualgap=0, blim=1000, **N1)
solve('P07', 'cone', what=2+512+4096, fix=DC1, scaling=1, check_dualgap=0, blim=1000, **N1)
solve('P07', 'adapt', what=2+512+4096, fix=DAD, symeps=1, max_iter=2, adaptive_rho=1, ar_interval=1, ar_tolerance='1.01', check_dualgap=0, **N1)
solve('P07', 'polish', what=2+512+4096, fix=dict(D1, l_0=-1, u_0=1), polishing=1, polish_refine_iter=0, delta=1, eps_abs=4, check_dualgap=0, **N1)
solve('P07', 'polish2', what=2+512+4096, fix=dict(D1, l_0=-1, u_0=1), polishing=1, polish_refine_iter=1, delta=1, eps_abs=4, check_dualgap=0, **N1)
solve('P07', 'eqfree', what=2+512, fix=M22a, types=43, check_dualgap=0, blim=1000, **T)
solve('P07', 'fixb', what=2+512, fix=FB, check_dualgap=0)
solve('P07', 'scaled', what=2+512, fix=dict(SC22, l_0=-1, u_0=1, l_1=-2, u_1=3), ws=3, scaling=1, check_dualgap=0, blim=1000)
solve('P07', 'lp', what=2+512+4096, fix=dict(LP22, l_0=-1, u_0=1, l_1=-2, u_1=3), Pm=0, check_dualgap=0)
solve('P07', 'm0', what=2+512+4096, fix=M22a, m=0, check_dualgap=1, blim=1000)
solve('P07', 'res', what=2, fix=M22a, check_dualgap=0, blim=1000, **T)
solve('P07', 'fixbw', what=2+512, fix=dict(FB, q_0=1, q_1=-1), ws=3, check_dualgap=0, **T)
prop('P09')
for kw in (dict(name='step', fix=M22a), dict(name='types', fix=M22a, types=12), dict(name='eqfree', fix=M22a, types=43),
           dict(name='scalarrho', fix=M22a, types=30, rho_is_vec=0), dict(name='alpha', fix=M22a, symalpha=1), dict(name='lp', fix=LP22, Pm=0)):
    job('P09', harness='h_solve.c', what=4+128, ws=7, check_dualgap=0, budget=60, **kw)
job('P09', 'm0', 'h_solve.c', what=4+128, ws=1, m=0, check_dualgap=0)
job('P09', 'scaled', 'h_solve.c', what=4+128, ws=3, check_dualgap=0, budget=60, fix=D1S, scaling=1, **N1)
job('P09', 'scaledup', 'h_solve.c', what=4+128, ws=3, check_dualgap=0, budget=60, fix=D1T, scaling=1, types=1, **N1)
job('P09', 'scaled22', 'h_solve.c', what=4+128, ws=3, check_dualgap=0, budget=150, fix=SC22, scaling=1, types=31)
job('P09', 'scalaralpha', 'h_solve.c', what=4+128, ws=3, check_dualgap=0, budget=60, fix=D1, types=2, rho_is_vec=0, alpha='1.875', **N1)
job('P09', 'scaledscalar', 'h_solve.c', what=4+128, ws=3, check_dualgap=0, budget=60, fix=D1T, scaling=1, types=2, rho_is_vec=0, **N1)
job('P09', 'switchon', 'h_solve.c', what=4+128, ws=3, check_dualgap=0, budget=60, fix=D1, warm_starting=0, **N1)
HC = {'cheap_timeout': 15, 'branch_timeout': 150}
H1 = {'P_0_0': 4, 'P_0_1': 1, 'P_1_1': 2, 'A_0_0': 1, 'A_0_1': 1}
H2 = dict(M22a)
HS = {'P_0_0': 16, 'P_0_1': 0, 'P_1_1': 1, 'A_0_0': 4, 'A_0_1': 1, 'A_1_0': -2, 'A_1_1': 4, 'q_0': 3, 'q_1': -1}


def hist(pid, name, ops, ops2=None, fin=31, fix=H1, **kw):
    kw.setdefault('cfg', HC)
    kw.setdefault('budget', 150)
    if 'n' in kw and 'Pm' in kw and 'P_0_1' in fix:
        fix = {k: v for k, v in fix.items() if k in ('P_0_0', 'A_0_0', 'q_0')}
    if ops2 is not None:
        kw.update(ops2=ops2, fresh=0)
    job(pid, name, 'h_hist.c', ops=ops, fin=fin, fix=fix, **kw)


prop('P10')
hist('P10', 'cold', 1, n=1, Pm=1, Am=1)
hist('P10', 'warm', 1, fin=30, n=1, Pm=1, Am=1)
hist('P10', 'warm2', 0, fin=30, max_iter=2, n=1, Pm=1, Am=1)
hist('P10', 'nowarm', 1, fin=0, warm_starting=0, n=1, Pm=1, Am=1)
hist('P10', 'flag', 30, ops2=30, fin=0)
hist('P10', 'switchon', 30, ops2=30, fin=0, warm_starting=0, ws2=1, n=1, Pm=1, Am=1)
hist('P10', 'switchonx', 32, ops2=32, fin=0, warm_starting=0, ws2=1, n=1, Pm=1, Am=1)
hist('P10', 'switchony', 33, ops2=33, fin=0, warm_starting=0, ws2=1, n=1, Pm=1, Am=1)
hist('P10', 'coldcg', 1, linsys=2, cg_max_iter=1, fix=dict(H1, q_0=1, q_1=-3, l_0=-1))
hist('P10', 'warmcg', 1, fin=30, linsys=2, cg_max_iter=1, fix=dict(H1, q_0=1, q_1=-3, l_0=-1, x0_0=2, x0_1=1, y0_0=1))
hist('P10', 'nosolpi', 301, fin=0, assumeinf=3, types=21, types1=21, n=1, m=2, Pm=1, Am=1, fix=dict(P_0_0=4, A_0_0=2, q_0=0, l_0=-3, u_1=-1, x0_0=0, y0_0=0, y0_1=0))
hist('P10', 'nosoldi', 201, fin=0, assumeinf=5, n=1, m=1, Pm=0, Am=1, types=1, fix=dict(A_0_0=1, q_0=-1, l_0=-1, x0_0=0, y0_0=0))
hist('P10', 'nosoly', 3301, ops2=35, fresh=0, fin=0, warm_starting=0, assumeinf=5, n=1, m=1, Pm=0, Am=1, types=1, fix=dict(A_0_0=1, q_0=-1, l_0=-1, x0_0=0))
hist('P10', 'xonly0', 32, ops2=34, fin=0)
hist('P10', 'yonly0', 33, ops2=35, fin=0)
hist('P10', 'xafter', 3233, ops2=30, fin=0)
hist('P10', 'yafter', 3332, ops2=30, fin=0)
hist('P10', 'xonlyscaled', 32, ops2=34, fin=0, fix=HS, m=2, scaling=1, **T)
hist('P10', 'xonlysc1', 32, ops2=34, fin=0, fix=D1S, scaling=1, **N1)
hist('P10', 'yonlysc1', 33, ops2=35, fin=0, fix=D1S, scaling=1, **N1)
hist('P10', 'xonly', 31, ops2=47, fin=32)
hist('P10', 'yonly', 31, ops2=47, fin=33)
hist('P10', 'scaledflag', 30, ops2=30, fin=0, fix=HS, m=2, scaling=1, **T)
prop('P11')
hist('P11', 'q', 2)
hist('P11', 'lu', 3)
hist('P11', 'l', 4)
hist('P11', 'u', 5)
hist('P11', 'leq', 4, types1=3)
hist('P11', 'ueq', 5, types1=3)
hist('P11', 'lfromeq', 4, types=3)
hist('P11', 'all', 6)
hist('P11', 'solvelu', 301, n=1, Pm=1, Am=1)
hist('P11', 'toeq', 3, types1=3)
hist('P11', 'tofree', 3, types1=4)
hist('P11', 'fromeq', 3, types=3, types1=1)
hist('P11', 'toeqad', 3, types1=3, adaptive_rho=1, n=1, Pm=1, Am=1)
hist('P11', 'fromeqad', 3, types=3, types1=1, adaptive_rho=3, ar_interval=50, n=1, Pm=1, Am=1)
hist('P11', 'scaledlu', 3, fix=HS, m=2, types1=31, scaling=1)
D1U = {'P_0_0': 4, 'A_0_0': 16, 'q_0': 1, 'q0_0': '1/2', 'q1_0': '1/2'}   # D = E = 1/4, c = 4 whatever the costs below one
hist('P11', 'scaledq', 2, fix=D1U, scaling=1, m=1, n=1, Pm=1, Am=1)
hist('P11', 'scaledall', 6, fix=D1U, scaling=1, m=1, n=1, Pm=1, Am=1)
hist('P11', 'scaledl', 4, fix=D1U, scaling=1, m=1, n=1, Pm=1, Am=1)
hist('P11', 'scaledu', 5, fix=D1U, scaling=1, m=1, n=1, Pm=1, Am=1)
hist('P11', 'scaledtwo', 203, fix=D1U, scaling=1, m=1, n=1, Pm=1, Am=1)
hist('P11', 'firsteq', 3, types1=3, n=1, m=2, Pm=1, Am=3, fix=dict(P_0_0=4, A_0_0=1, A_1_0=2))
hist('P11', 'seconeq', 3, types1=30, n=1, m=2, Pm=1, Am=3, fix=dict(P_0_0=4, A_0_0=1, A_1_0=2))
hist('P11', 'firstfree', 3, types1=4, n=1, m=2, Pm=1, Am=3, fix=dict(P_0_0=4, A_0_0=1, A_1_0=2))
hist('P11', 'swapeq', 3, types=3, types1=30, n=1, m=2, Pm=1, Am=3, fix=dict(P_0_0=4, A_0_0=1, A_1_0=2))
hist('P11', 'twice', 602, n=1, Pm=1, Am=1)
hist('P11', 'scalarrho', 3, types1=3, rho_is_vec=0)
hist('P11', 'indirect', 6, types1=3, linsys=2, n=1, Pm=1, Am=1)
prop('P12')
for k in range(10, 20):
    hist('P12', 'op%d' % k, k)
hist('P12', 'idx2', 19, pidx=2, aidx=1)
hist('P12', 'lensA', 19, pidx=1, acnt=2)
hist('P12', 'lensP', 19, pcnt=3, aidx=1)
hist('P12', 'solve', 1801, n=1, Pm=1, Am=1, fix=dict(D1, q_0=1), **T)
hist('P12', 'scaled18', 18, n=1, m=1, Pm=1, Am=1, scaling=1, fix=dict(D1S, q_0=8, P0_0=1, A0_0='1/2'))
hist('P12', 'scaled14', 14, n=1, m=1, Pm=1, Am=1, scaling=1, fix=dict(D1S, q_0=8, A0_0=16))
hist('P12', 'scaled10', 10, n=1, m=1, Pm=1, Am=1, scaling=1, fix=dict(D1S, q_0=8, P0_0=1))
hist('P12', 'idxmix', 19, pidx=0, aidx=1, n=1, m=2, Pm=1, Am=3, fix=dict(D1, A_1_0=3))
hist('P12', 'scaledA1', 16, aidx=1, n=1, m=2, Pm=1, Am=3, scaling=1, fix=dict(P_0_0=4, A_0_0=1, A_1_0=1, q_0=2, A0_0=16, A0_1=1))
hist('P12', 'scaledP1', 12, pidx=1, n=2, m=1, Pm=9, Am=1, scaling=1, rho='1/2048', fix=dict(P_0_0=4, P_1_1=4, A_0_0=1, q_0=2, q_1=-1, P0_0=16, P0_1=1))
hist('P12', 'after', 1401, n=1, m=1, Pm=1, Am=1, fix=dict(D1, q_0=1, A0_0=2, l_0=-1))
hist('P12', 'indirect', 18, n=1, Pm=1, Am=1, linsys=2)
hist('P12', 'nodiag', 14, Pm=2, fix={'P_0_1': 0, 'A_0_0': 1, 'A_0_1': 1})
hist('P12', 'emptyP', 48, ops2=47, fin=0, n=1, Pm=1, Am=1, fresh=0)
hist('P12', 'emptyA', 49, ops2=47, fin=0, n=2, m=1, Pm=15, Am=3, fix=M22a, fresh=0)
prop('P13')
hist('P13', 'bounds', 40, ops2=47, fin=0)
hist('P13', 'boundsl', 40, ops2=47, fin=0, badside=1)
hist('P13', 'boundsu', 40, ops2=47, fin=0, badside=2)
hist('P13', 'matP', 41, ops2=47, fin=0)
hist('P13', 'matPidx', 44, ops2=47, fin=0)
hist('P13', 'matA', 45, ops2=47, fin=0)
hist('P13', 'matAidx', 46, ops2=47, fin=0)
hist('P13', 'matPneg', 51, ops2=47, fin=0, n=1, Pm=1, Am=1)
hist('P13', 'matAneg', 52, ops2=47, fin=0, n=1, Pm=1, Am=1)
hist('P13', 'rho', 43, ops2=47, fin=0)
hist('P13', 'settings', 42, ops2=47, fin=0)
hist('P13', 'solved', 4001, ops2=4701, fin=0, n=1, Pm=1, Am=1)
hist('P13', 'cert', 4001, ops2=1, fin=50, n=1, Pm=1, Am=1, cmpget=1)
hist('P13', 'certpi', 4001, ops2=1, fin=50, cmpget=1, stopget=1, n=1, m=2, Pm=1, Am=3, types=21, fix=dict(PI1, q_0=0, l_0=3, bl_0=0, bl_1=1, bu_0=1))
hist('P13', 'certpil', 4001, ops2=1, fin=50, cmpget=1, stopget=1, n=1, m=2, Pm=1, Am=3, types=21, badside=1, fix=dict(PI1, q_0=0, l_0=3, bl_0=0))
hist('P13', 'certpiu', 4001, ops2=1, fin=50, cmpget=1, stopget=1, n=1, m=2, Pm=1, Am=3, types=21, badside=2, fix=dict(PI1, q_0=0, l_0=3, bu_0=9))
hist('P13', 'certdi', 4001, ops2=1, fin=50, cmpget=1, stopget=1, n=1, m=1, Pm=0, Am=1, types=1, fix=dict(A_0_0=1))
hist('P13', 'certdimat', 4101, ops2=1, fin=50, cmpget=1, stopget=1, n=1, m=1, Pm=0, Am=1, types=1, fix=dict(A_0_0=1))
hist('P13', 'scaled', 40, ops2=47, fin=0, fix=HS, m=2, scaling=1)
prop('P14')
hist('P14', 'rho', 20)
hist('P14', 'low', 20, rho1='1e-9')
hist('P14', 'high', 20, rho1='1e9')
hist('P14', 'eq', 20, types=3)
hist('P14', 'scalar', 20, rho_is_vec=0)
hist('P14', 'scalarlow', 20, rho1='1e-9', rho_is_vec=0)
hist('P14', 'scalarwarm', 20, fin=30, rho_is_vec=0, n=1, m=1, Pm=1, Am=1, fix=dict(D1, x0_0=1, q_0=2))
hist('P14', 'scalarlowwarm', 20, rho1='1e-9', fin=30, rho_is_vec=0, n=1, m=1, Pm=1, Am=1, fix=dict(D1, x0_0=1, q_0=2))
hist('P14', 'scalarhighwarm', 20, rho1='1e9', fin=30, rho_is_vec=0, n=1, m=1, Pm=1, Am=1, fix=dict(D1, x0_0=1, q_0=2))
hist('P14', 'lowwarm', 20, rho1='1e-9', fin=30, n=1, m=1, Pm=1, Am=1, fix=dict(D1, x0_0=1, q_0=2))
hist('P14', 'highwarm', 20, rho1='1e9', fin=30, types=3, n=1, m=1, Pm=1, Am=1, fix=dict(D1, x0_0=1, q_0=2))
hist('P14', 'warm', 20, fin=30, n=1, m=1, Pm=1, Am=1, fix=dict(D1, x0_0=1, q_0=2))
hist('P14', 'near', 20, rho1='0.500001')
hist('P14', 'nearlow', 20, rho1='0.49999', fin=30, n=1, m=1, Pm=1, Am=1, fix=dict(D1, x0_0=1, q_0=2))
hist('P14', 'same', 20, rho1='0.5')
hist('P14', 'sym', 21)
hist('P14', 'solve', 2001, n=1, Pm=1, Am=1)
hist('P14', 'thenlu', 320, types1=3)
hist('P14', 'luthen', 2003, types1=3)
hist('P14', 'thenA', 1420)
hist('P14', 'scaled', 20, fix=HS, m=2, scaling=1)
hist('P14', 'mixed', 20, types=30, n=1, m=2, Pm=1, Am=3, fix=dict(P_0_0=4, A_0_0=1, A_1_0=2))
hist('P14', 'mixed2', 20, types=43, n=1, m=2, Pm=1, Am=3, fix=dict(P_0_0=4, A_0_0=1, A_1_0=2))
hist('P14', 'indirect', 20, n=1, Pm=1, Am=1, linsys=2)
prop('P28')
hist('P28', 'solve', 1, n=1, Pm=1, Am=1, max_iter=2)
hist('P28', 'settings', 25, ops2=25, fin=31)
hist('P28', 'mix', 200206, n=1, Pm=1, Am=1)
hist('P28', 'twice', 101, n=1, Pm=1, Am=1)
hist('P28', 'query', 5001, n=1, Pm=1, Am=1)
hist('P28', 'kkt', 2001, rho1='0.5', max_iter=2, adaptive_rho=3, ar_interval=1, ar_tolerance='1.01', check_termination=0, n=1, Pm=1, Am=1, fix=dict(D1, q_0=3, l_0=-1, u_0=1, y0_0=0, x0_0=0))
hist('P28', 'iterations', 2001, rho1='0.5', max_iter=2, adaptive_rho=1, ar_interval=1, ar_tolerance='1.01', check_termination=0, n=1, Pm=1, Am=1, fix=dict(D1, q_0=3, l_0=-1, u_0=1, y0_0=0, x0_0=0))
hist('P28', 'polish', 1, polishing=1, n=1, Pm=1, Am=1, fix=dict(D1, l_0=-1, u_0=1))
hist('P28', 'scaled', 1, scaling=1, n=1, Pm=1, Am=1, fix=D1S)
hist('P28', 'afterpi', 301, types=21, types1=11, n=1, m=2, Pm=1, Am=3, fix=dict(PI1, q_0=0, l_0=3, l0_0=-1, u0_0=2, l0_1=0))
hist('P28', 'afterdi', 201, n=1, m=1, Pm=0, Am=1, types=1, fix=dict(A_0_0=1, q0_0=0))
hist('P28', 'polsw', 2701, polishing=1, polish_refine_iter=0, delta=1, chkrho=0, n=1, Pm=1, Am=1, fix=dict(D1, l_0=-1, u_0=1))
hist('P28', 'indirect', 1, n=1, Pm=1, Am=1, linsys=2, fix=dict(D1, q_0=3))
prop('P33')
hist('P33', 'life', 60, ops2=47, fin=0, fresh=0, early=1)
hist('P33', 'alive', 60, ops2=47, fin=0, fresh=0, early=1, kill3=0)


def timed(pid, name, **kw):
    kw.setdefault('budget', 60)
    c = dict(NM)
    c.update(kw.pop('cfg', {}))
    kw.setdefault('fix', D1)
    job(pid, name, 'h_time.c', cfg=c, n=1, m=1, Pm=1, Am=1, check_dualgap=0, **kw)


BX = dict(D1, l_0=-1, u_0=1)
BXQ = dict(BX, q_0=3)
FX = dict(D1, q_0=3, l_0=-1, u_0=1)      # does not converge in three iterations
E9 = dict(eps_abs='1e-9', eps_rel='1e-9')
CG1 = dict(linsys=2, cg_max_iter=1)
CGD = dict(H1, q_0=1, q_1=-3, l_0=-1)
hist('P28', 'cgidle', 130, fin=30, linsys=2, max_iter=2, cg_max_iter=1, cg_tol_reduction=2, cg_tol_fraction='1/2', eps_abs='1e-9', eps_rel='1e-9', chkrho=0, fix=dict(H1, q_0='-21/8', q_1='-11/4', u_0='1/2', x0_0='1/2', x0_1=1, y0_0='-15/8', l_0='-1/2'))
hist('P28', 'cghalved', 130, fin=30, linsys=2, max_iter=2, cg_max_iter=1, cg_tol_reduction=1, cg_tol_fraction='1/2', eps_abs='1e-9', eps_rel='1e-9', chkrho=0, fix=dict(H1, q_0='3/2', q_1='19/8', u_0='3/4', x0_0=0, x0_1='-5/4', y0_0='15/8', l_0='-3/4'))
hist('P28', 'cgsolves', 101, ops2=1, fresh=0, fix=CGD, **CG1)
CGI = dict(linsys=2, max_iter=2, cg_max_iter=1, cg_tol_reduction=2, cg_tol_fraction='1/2', eps_abs='1e-9', eps_rel='1e-9', chkrho=0, fix=dict(H1, q_0='-21/8', q_1='-11/4', u_0='1/2', x0_0='1/2', x0_1=1, y0_0='-15/8', l_0='-1/2'))
CGH = dict(linsys=2, max_iter=2, cg_max_iter=1, cg_tol_reduction=1, cg_tol_fraction='1/2', eps_abs='1e-9', eps_rel='1e-9', chkrho=0, fix=dict(H1, q_0='3/2', q_1='19/8', u_0='3/4', x0_0=0, x0_1='-5/4', y0_0='15/8', l_0='-3/4'))
hist('P33', 'cgidle', 60, ops2=47, fin=30, fresh=0, early=1, q3='1/1048576', **CGI)
hist('P33', 'cghalved', 60, ops2=47, fin=30, fresh=0, early=1, q3='1/1048576', **CGH)
hist('P33', 'cgalive', 60, ops2=47, fin=30, fresh=0, early=1, q3='1/1048576', kill3=0, **CGI)
hist('P33', 'between', 6001, ops2=1, fresh=0, early=1, fin=0, q3='1/1048576', n=1, Pm=1, Am=1, fix=dict(D1, l_0=-1, u_0=1))
hist('P33', 'adapt', 60, ops2=47, fin=0, fresh=0, early=1, max_iter=2, adaptive_rho=1, ar_interval=1, ar_tolerance='1.01', check_termination=0, n=1, Pm=1, Am=1, fix=dict(D1, q_0=3, l_0=-1, u_0=1))
hist('P33', 'polish', 60, ops2=47, fin=0, fresh=0, early=1, polishing=1, polish_refine_iter=0, delta=1, chkrho=0, n=1, Pm=1, Am=1, fix=dict(D1, l_0=-1, u_0=1))
hist('P33', 'scaled', 60, ops2=47, fin=0, fresh=0, early=1, scaling=1, n=1, Pm=1, Am=1, fix=D1S)
hist('P33', 'rhoscalar', 60, ops2=47, fresh=0, early=1, fin=20, rho1='0.75', rho_is_vec=0, n=1, Pm=1, Am=1)
hist('P33', 'busyrho', 60, ops2=47, fresh=0, early=1, fin=20, rho1='0.75', busy=1, n=1, Pm=1, Am=1)
hist('P33', 'busymat', 60, ops2=47, fresh=0, early=1, fin=14, busy=1, n=1, Pm=1, Am=1)
hist('P33', 'busyset', 60, ops2=47, fresh=0, early=1, fin=25, busy=1, n=1, Pm=1, Am=1)
hist('P33', 'busysc', 60, ops2=47, fresh=0, early=1, fin=2, busy=1, scaling=1, n=1, Pm=1, Am=1, fix=dict(D1S, q0_0=4))
hist('P33', 'update', 60, ops2=47, fin=2, fresh=0, early=1, n=1, Pm=1, Am=1)
hist('P33', 'rho', 60, ops2=47, fin=20, fresh=0, early=1, rho1='0.75', n=1, Pm=1, Am=1)
hist('P11', 'cgq', 201, fix=dict(CGD, q1_0=2, q1_1=1), **CG1)
hist('P11', 'cglu', 301, fix=dict(CGD, l1_0=-2), **CG1)
hist('P12', 'cgA', 1401, fix=dict(CGD, A1_0=2, A1_1=1), **CG1)
hist('P12', 'cgP', 1001, fix=dict(CGD, P1_0=5, P1_1=1, P1_2=3), **CG1)
hist('P14', 'cgafter', 2001, fix=CGD, **CG1)
prop('P08')
timed('P08', 'one', max_iter=1, nt=4)
timed('P08', 'fixed3', max_iter=3, nt=6, fix=FX, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'check0', max_iter=2, nt=6, check_termination=0, fix=dict(D1, l_0=-1, u_0=1), **T)
timed('P08', 'check2', max_iter=3, nt=6, fix=FX, check_termination=2, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'q2', max_iter=2, nt=5, fix=dict(D1, l_0=-1, u_0=1), **T)
timed('P08', 'onec0', max_iter=1, nt=4, check_termination=0, fix=dict(D1, l_0=-1, u_0=1))
timed('P08', 'fixc0', max_iter=2, nt=5, check_termination=0, fix=FX, **E9)
timed('P08', 'fixc0ok', max_iter=2, nt=5, check_termination=0, fix=FX)
timed('P08', 'polish', max_iter=2, nt=8, fix=dict(D1, l_0=-1, u_0=1), polishing=1, polish_refine_iter=0)
timed('P08', 'again', max_iter=1, nt=6, fix=FX, seq=9, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'upd1', max_iter=1, nt=7, fix=FX, seq=91, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'upd12', max_iter=1, nt=9, fix=FX, seq=9921, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'upd3', max_iter=1, nt=7, fix=FX, seq=93, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'upd31', max_iter=1, nt=9, fix=FX, seq=13, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'upd13', max_iter=1, nt=9, fix=FX, seq=31, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'upd22', max_iter=1, nt=9, fix=FX, seq=22, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'polagain', max_iter=1, nt=12, fix=dict(BX, q_0=5), seq=9, polishing=1, polish_refine_iter=0, eps_abs=4)
timed('P08', 'polupd', max_iter=1, nt=12, fix=dict(BX, q_0=5), seq=3, polishing=1, polish_refine_iter=0, eps_abs=4)
timed('P08', 'polupd1', max_iter=1, nt=12, fix=dict(BX, q_0=5), seq=1, polishing=1, polish_refine_iter=0, eps_abs=4)
timed('P08', 'polsw', max_iter=1, nt=12, fix=dict(BX, q_0=5), seq=4, polishing=1, polish_refine_iter=0, eps_abs=4)
timed('P08', 'polon', max_iter=1, nt=12, fix=dict(BX, q_0=5), seq=4, polish_refine_iter=0, eps_abs=4)
timed('P08', 'againdi', max_iter=3, nt=7, fix=dict(P_0_0=0, A_0_0=1, q_0=-1, l_0=-1), types=1, seq=9)
timed('P06', 'timelimit', max_iter=1, nt=4, check_termination=0, fix=dict(D1, l_0=-1, u_0=1))
timed('P06', 'timelimit2', max_iter=2, nt=5, check_termination=0, fix=FX)
timed('P08', 'updq', max_iter=1, nt=7, fix=FX, seq=95, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'updu', max_iter=1, nt=7, fix=FX, seq=96, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'updl', max_iter=1, nt=7, fix=FX, seq=97, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'maxit', max_iter=1, nt=8, fix=FX, seq=8, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'maxless', max_iter=2, nt=8, fix=FX, seq=8, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'rare', max_iter=1, nt=6, fix=FX, seq=9, check_termination=5, eps_abs='1e-9', eps_rel='1e-9')
timed('P08', 'pre', max_iter=2, nt=7, fix=FX, pre=1, eps_abs='1e-9', eps_rel='1e-9')
prop('P31')
timed('P31', 'irq', mode=31, max_iter=3, fix=FX, eps_abs='1e-9', eps_rel='1e-9')
timed('P31', 'irqq', mode=31, max_iter=1, fix=dict(D1, l_0=-1, u_0=1))
timed('P31', 'irqupd', mode=31, max_iter=2, fix=FX, symtime=1, upd=1, eps_abs='1e-9', eps_rel='1e-9', time_limit='1e10')
timed('P31', 'check0', mode=31, max_iter=2, fix=FX, check_termination=0)
timed('P31', 'adaptfail', mode=31, max_iter=2, fix=FX, adaptive_rho=1, ar_interval=1, fail=22, again=0, eps_abs='1e-9', eps_rel='1e-9')
timed('P31', 'polishfail', mode=31, max_iter=2, fix=dict(D1, l_0=-1, u_0=1), polishing=1, fail=11, again=0)
prop('P15')
E9 = dict(eps_abs='1e-9', eps_rel='1e-9')
FQ = dict(D0, l_0=-1, u_0=1)
timed('P15', 'off', mode=15, max_iter=2, fix=FX)
timed('P15', 'iter2', mode=15, max_iter=2, adaptive_rho=1, ar_interval=2, fix=FX)
timed('P15', 'iter21', mode=15, max_iter=2, adaptive_rho=1, ar_interval=1, fix=FX, **E9)
timed('P15', 'auto', mode=15, max_iter=5, adaptive_rho=1, fix=FX, **E9)
timed('P15', 'autoc0', mode=15, max_iter=101, adaptive_rho=1, check_termination=0, fix=FX, **E9)
timed('P15', 'kktsolves', mode=15, max_iter=1, adaptive_rho=3, ar_interval=1, fix=FX, symtol=0, ar_tolerance='1.01', solves=2, **E9)
timed('P15', 'kkt2', mode=15, max_iter=2, adaptive_rho=3, fix=FX, symfrac=1, symtol=0, **E9)
timed('P15', 'kkt3', mode=15, max_iter=4, adaptive_rho=3, ar_interval=2, fix=FX, symfrac=1, symtol=0, ar_tolerance='1.01', **E9)
timed('P15', 'kkt1', mode=15, max_iter=3, adaptive_rho=3, ar_interval=1, fix=FX, symfrac=1, symtol=0, ar_tolerance='1.01', **E9)
timed('P15', 'timec4', mode=15, max_iter=4, adaptive_rho=2, symtime=1, nt=6, fix=FX, check_termination=4, symtol=0, ar_tolerance='1.01', **E9)
timed('P15', 'time', mode=15, max_iter=2, adaptive_rho=2, symtime=1, nt=5, fix=FX, **E9)
timed('P15', 'timec2', mode=15, max_iter=3, adaptive_rho=2, symtime=1, nt=6, fix=FX, check_termination=2, symtol=0, ar_tolerance='1.01', **E9)
timed('P15', 'timec0', mode=15, max_iter=2, adaptive_rho=2, symtime=1, nt=5, fix=FX, check_termination=0, symtol=0, ar_tolerance='1.01', **E9)
timed('P15', 'timefrac', mode=15, max_iter=2, adaptive_rho=2, symtime=1, symfrac=1, nt=5, fix=FX, symtol=0, ar_tolerance='1.01', **E9)
timed('P15', 'solves', mode=15, max_iter=1, adaptive_rho=1, ar_interval=1, fix=FX, solves=2, **E9)
timed('P15', 'unit', mode=16)
timed('P15', 'unit0', mode=16, prz=1)
timed('P15', 'decide', mode=16, decide=1, symrho=0, symtol=0, fix=dict(D0, q_0=1, z_0=1, Px_0=1, Aty_0=1), rho='0.5')
timed('P15', 'decidetol', mode=16, decide=1, symrho=0, mode15tol=1, fix=dict(D0, q_0=1, z_0=1, Px_0=1, Aty_0=1, Ax_0=1), rho='0.5')
timed('P15', 'decidelow', mode=16, decide=1, symrho=0, symtol=0, fix=dict(D0, q_0=1, z_0=1, Px_0=1, Aty_0=1), rho='2e-6')
timed('P15', 'decidehigh', mode=16, decide=1, symrho=0, symtol=0, fix=dict(D0, q_0=1, z_0=1, Px_0=1, Aty_0=1), rho='5e5')
timed('P15', 'iter1', mode=15, max_iter=1, adaptive_rho=1, ar_interval=1, **T)


def state(pid, name, **kw):
    kw.setdefault('budget', 60)
    kw.setdefault('fix', D1)
    c = dict(NM)
    c.update(kw.pop('cfg', {}))
    kw.setdefault('check_dualgap', 0)
    kw.setdefault('mode', int(pid[1:]))
    if pid == 'P18':
        c['nomerge'] = c['nomerge'] + ['@form_Ared', '@p18']
    job(pid, name, 'h_state.c', cfg=c, **kw)


prop('P16')
M1 = dict(n=1, m=1, Pm=1, Am=1)
M2 = dict(n=1, m=2, Pm=1, Am=3, fix=dict(P_0_0=2, A_0_0=1, A_1_0=-3, q_0=0))
M1f = dict(M1, fix=dict(D1, q_0=0))
state('P16', 'setup', **M2)
state('P16', 'setup1', symrho=1, **M1f)
state('P16', 'scalar', rho_is_vec=0, **M1f)
state('P16', 'scalarlow', rho_is_vec=0, rho='1e-8', **M1f)
state('P16', 'high', rho='1e8', **M1f)
state('P16', 'bounds', seq=1, **M1f)
state('P16', 'bounds2', seq=1, lin=0, **M2)
state('P16', 'boundsit', seq=1, adaptive_rho=1, **M1f)
state('P16', 'boundstm', seq=1, adaptive_rho=2, **M1f)
state('P16', 'boundskkt', seq=1, adaptive_rho=3, **M1f)
state('P16', 'lower', seq=4, **M1f)
state('P16', 'upper', seq=5, **M1f)
state('P16', 'rho', seq=2, **M1f)
state('P16', 'rholow', seq=3, **M1f)
state('P16', 'rhoscalar', seq=2, rho_is_vec=0, **M1f)
state('P16', 'boundsrho', seq=31, **M1f)
state('P16', 'rhobounds', seq=13, rho1='0.125', **M1f)
state('P16', 'mat', seq=6, **M1f)
state('P16', 'boundsmat', seq=61, **M1f)
state('P16', 'twice', seq=11, lin=0, **M1f)
state('P16', 'm3', lin=0, n=1, m=3, Pm=1, Am=7, fix=dict(P_0_0=2, A_0_0=1, A_1_0=-3, A_2_0=2, q_0=0), **T)
state('P16', 'n2', n=2, m=2, fix=M22a, **T)
prop('P17')
state('P17', 'n1', scaling=1, **M1)
state('P17', 'n1sym', scaling=1, fix=dict(q_0=1), **M1)
state('P17', 'n1symA', scaling=1, fix=dict(q_0=1, P_0_0=16), **M1)
state('P17', 'n1symq', scaling=1, fix=D1S | dict(), **M1)
state('P17', 'symq', scaling=1, fix=dict(P_0_0=16, A_0_0=4), upd=1, **M1)
state('P17', 'n1two', scaling=2, fix=D1S, upd=1, types=1, **M1)
state('P17', 'n2', scaling=1, n=2, m=2, fix=SC22, upd=1, types=20)
state('P17', 'n2free', scaling=1, n=2, m=2, fix=SC22, types=43)
state('P17', 'lp', scaling=1, n=2, m=2, Pm=0, fix=SC22, types=0)
state('P17', 'zerorow', scaling=1, n=2, m=2, Am=5, fix=SC22, types=0)
state('P17', 'm0', scaling=2, n=2, m=0, fix=SC22)
state('P17', 'mat', scaling=1, fix=D1S, mat=1, upd=1, **M1)
state('P17', 'extreme', scaling=1, fix=dict(P_0_0='1e9', A_0_0='1e-9', q_0=1), **M1)
state('P17', 'extreme2', scaling=1, fix=dict(P_0_0='1e-12', A_0_0='1e12', q_0='1e-9'), **M1)
prop('P18')
state('P18', 'n1', fix=BX, **M1)
state('P18', 'n1low', types=1, fix=dict(D1, q_0=3), **M1)
state('P18', 'n1warm', ws=1, fix=dict(D1, l_0=-1, u_0=1, q_0=3, y0_0=1), **M1)
state('P18', 'n1warmy', ws=1, fix=dict(D1, l_0=-1, u_0=1, q_0=3, x0_0=1), **M1)
state('P18', 'exact0', exact=1, polish_refine_iter=0, delta='0.125', fix=dict(D1, l_0=-1, u_0=1), eps_abs=1, **M1)
state('P18', 'exact2', exact=1, polish_refine_iter=2, delta='0.125', fix=dict(D1, l_0=-1, u_0=1), eps_abs=1, **M1)
state('P18', 'exact0w', exact=1, ws=1, polish_refine_iter=0, delta='0.125', fix=dict(D1, l_0=-1, u_0=1, q_0=3, y0_0=1), eps_abs=1, **M1)
state('P18', 'exact0y', exact=1, ws=1, polish_refine_iter=0, delta='0.125', fix=dict(D1, l_0=-1, u_0=1, q_0=3, x0_0=-1), eps_abs=1, **M1)
state('P18', 'lower', types=1, eps_abs=1, gap=1, fix=dict(D1, q_0=3), **M1)
state('P18', 'upper', types=2, eps_abs=1, gap=1, fix=dict(D1, q_0=-3), **M1)
state('P18', 'eq', types=3, eps_abs=1, fix=dict(D1, q_0=3), **M1)
state('P18', 'free', types=4, **M1)
state('P18', 'scaled', scaling=1, eps_abs=1, fix=dict(D1S, u_0=3), **M1)
state('P18', 'scaledw', scaling=1, eps_abs=1, fix=dict(D1S, l_0=-4, u_0=3, y0_0=1), ws=1, **M1)
state('P18', 'n2', n=2, m=2, fix=dict(M22a, l_0=-1, u_0=1, l_1=-2, u_1=3, q_1=-1), eps_abs=1, polish_refine_iter=1)
prop('P19')
state('P19', 'n1', re=1, **M1)
state('P19', 'scaled', scaling=1, fix=D1S, **M1)
state('P19', 'noalloc', alloc=0, **M1)
state('P19', 'pinf', re=1, n=1, m=2, Pm=1, Am=3, types=21, pre=0, fix=dict(PI1, q_0=0))
state('P19', 'pinfsc', re=1, n=1, m=2, Pm=1, Am=3, types=21, pre=0, fix=dict(PIS, q_0=8, l_0=3), scaling=1)
state('P19', 'pinfst', n=1, m=2, Pm=1, Am=3, types=21, pre=0, fix=dict(A_0_0=4, A_1_0=64, P_0_0=16, q_0=8, l_0=3), scaling=1, scaled_termination=1)
state('P19', 'dinf', re=1, n=1, m=1, Pm=0, Am=1, types=1, fix=dict(A_0_0=1))
state('P19', 'dinfsc', re=1, n=1, m=1, Pm=0, Am=1, types=1, fix=dict(A_0_0=4, q_0=-8), scaling=1)
state('P19', 'dinfst', n=1, m=1, Pm=0, Am=1, types=1, fix=dict(A_0_0=4, q_0=-8), scaling=1, scaled_termination=1)
state('P19', 'twin', twin=1, again=1, fix=dict(D1, q_0=1, l_0=-1, u_0=1, y0_0=0), **M1)
state('P19', 'twinno', twin=1, alloc=0, **M1)
state('P19', 'twinsc', twin=1, alloc=0, scaling=1, fix=D1S, **M1)
state('P19', 'twinpinf', twin=1, alloc=0, n=1, m=2, Pm=1, Am=3, types=21, pre=0, fix=dict(PI1, q_0=0))
state('P19', 'twinpinfsc', twin=1, again=1, alloc=0, n=1, m=2, Pm=1, Am=3, types=21, pre=0, fix=dict(PIS, q_0=8, l_0=3), scaling=1)
state('P19', 'twindinf', twin=1, alloc=0, n=1, m=1, Pm=0, Am=1, types=1, pre=0, fix=dict(A_0_0=1))
state('P19', 'twindinfsc', twin=1, alloc=0, n=1, m=1, Pm=0, Am=1, types=1, pre=0, fix=dict(A_0_0=4, q_0=-8), scaling=1)
state('P19', 'm0', re=1, n=2, m=0, fix=M22a)
hist('P19', 'query', 5001, ops2=1, fin=0, fix=BX, **N1)
hist('P19', 'querywarm', 503001, ops2=3001, fin=0, fix=BXQ, **N1)
hist('P19', 'querysc', 5001, ops2=1, fin=0, fix=D1S, scaling=1, **N1)
hist('P19', 'qwarmfirst', 5030, ops2=30, fin=0, fix=D1S, scaling=1, **N1)
hist('P19', 'queryupd', 500201, ops2=201, fin=0, fix=dict(BX, q_0=0), **N1)
prop('P21')
state('P21', 'setup', **M1)
state('P21', 'setup2', n=2, m=2, fix=dict(M22a, q_1=2, l_0=-1, u_0=1, l_1=-2, u_1=3))
state('P21', 'scaled', scaling=1, fix=D1S, **M1)
state('P21', 'vec', seq=1, fix=dict(D1, q_0=0, l_0=-1, u_0=1), **M1)
state('P21', 'mat', seq=2, n=2, m=1, Am=3, fix=dict(H1, q_1=-1, l_0=-1, u_0=1))
state('P21', 'warm', seq=3, fix=BX, **M1)
state('P21', 'settings', seq=4, fix=BX, **M1)
state('P21', 'all', seq=54321, fix=dict(D1, q_0=0, l_0=-1, u_0=1, x0_0=1, y0_0=-1, nl_0=-3, nu_0=2), **M1)
state('P21', 'inf', seq=1, types=1, types1=2, fix=dict(D1, q_0=0), **M1)
state('P21', 'beyond', seq=51, types=2, types1=4, huge='4e30', fix=dict(D1, q_0=0, nq_0=1), **M1)
state('P21', 'beyondsc', seq=51, types=1, types1=2, huge='4e30', scaling=1, fix=dict(D1S, nq_0=1), **M1)
state('P21', 'lowrho', seq=4, rho='1e-8', adaptive_rho=2, fix=dict(BX, q_0=1), **M1)
state('P21', 'kktrho', adaptive_rho=3, ar_interval=0, check_termination=0, fix=dict(BX, q_0=1), **M1)
state('P21', 'highrho', rho='1e8', adaptive_rho=1, ar_interval=0, check_termination=0, fix=dict(BX, q_0=1), **M1)
state('P21', 'polish', polishing=1, fix=dict(D1, l_0=-1, u_0=1), **M1)
state('P21', 'indirect', linsys=2, fix=dict(D1, l_0=-1, u_0=1), **M1)
prop('P22')
B1 = dict(M1, fix=dict(D1, l_0=-1, u_0=1, q_0=-3))
state('P22', 'solve', seq=1, **M1)
state('P22', 'polish', seq=11, polishing=1, fix=dict(D1, l_0=-1, u_0=1), **M1)
state('P22', 'polfail', seq=11, polishing=1, eps_abs=4, polish_refine_iter=1, fix=BX, **T, **M1)
state('P22', 'polfails', seq=161, polishing=1, eps_abs=4, polish_refine_iter=0, delta=1, fix=BX, **M1)
state('P22', 'polref', seq=1, polishing=1, eps_abs=4, polish_refine_iter=1, delta=1, fix=BX, **M1)
state('P22', 'polref2', seq=11, polishing=1, eps_abs=4, polish_refine_iter=2, delta=1, fix=dict(BX, q_0=5), **M1)
state('P22', 'polsc', seq=11, polishing=1, eps_abs=4, polish_refine_iter=0, delta=1, scaling=1, fix=dict(D1S, u_0=3), **M1)
state('P22', 'mix', seq=165432, **dict(B1))
state('P22', 'mixsc', seq=1653427, scaling=2, polishing=1, adaptive_rho=1, ar_interval=1, max_iter=3, **dict(B1, fix=dict(D1S, l_0=-1, u_0=1)))
state('P22', 'fails', seq=1898, **dict(B1))
state('P22', 'indirect', seq=16542, linsys=2, **dict(B1))
state('P22', 'scalar', seq=1421, rho_is_vec=0, **dict(B1))
state('P22', 'm0', seq=15167, n=2, m=0, fix=dict(M22a, q_0=1, q_1=-1))
state('P22', 'm0polish', seq=1, n=2, m=0, polishing=1, scaling=1, fix=dict(M22a, q_0=1, q_1=-1))
state('P22', 'P0', seq=131, n=1, m=1, Pm=0, Am=1, fix=dict(A_0_0=1, l_0=-1, u_0=1))
state('P22', 'A0', seq=171, n=1, m=1, Pm=1, Am=0, fix=dict(P_0_0=1, l_0=-1, u_0=1))
state('P22', 'badbounds', bad=1, **M1)
state('P22', 'badalpha', bad=2, **M1)
state('P22', 'badsigma', bad=3, **M1)
state('P22', 'noncvx', indef=1, n=1, m=1, Pm=1, Am=1, fix=dict(P_0_0=-3, A_0_0=1))
state('P22', 'noncvxsc', indef=1, scaling=1, n=1, m=1, Pm=1, Am=1, fix=dict(P_0_0=-16, A_0_0=4, q_0=8))
state('P22', 'mat2', seq=1391, n=2, m=1, Am=3, fix=dict(H1, q_1=-1, l_0=-1, u_0=1), cfg={'nomerge': []})
state('P22', 'pinf', seq=161, n=1, m=2, Pm=1, Am=3, types=21, fix=dict(PI1, q_0=0, l_0=3))
prop('P20')
D01 = dict(P_0_0=2, A_0_0=1)
job('P20', 'errors', 'h_misc.c', what=0, budget=60)
job('P20', 'status', 'h_misc.c', what=1, budget=60)
job('P20', 'caps', 'h_misc.c', what=2, fix=D01, budget=60)
job('P20', 'dims', 'h_misc.c', what=3, fix=dict(P_0_0=2, P_1_1=1, A_0_0=1, A_0_1=2, A_1_0=3, A_1_1=4), budget=60)
prop('P24')
for (n, m) in ((1, 1), (2, 1), (1, 2), (2, 0)):
    job('P24', 'n%dm%d' % (n, m), 'h_csc.c', kkt=1, n=n, m=m, budget=90)
job('P24', 'n2m2', 'h_csc.c', kkt=1, n=2, m=2, upd=0, budget=120)
job('P24', 'n3m1', 'h_csc.c', kkt=1, n=3, m=1, upd=0, tier='thorough', budget=600)
prop('P25')
job('P25', 'binary', 'h_lin.c', lo=0, hi=6, budget=90)
job('P25', 'binary2', 'h_lin.c', lo=7, hi=13, budget=90)
job('P25', 'unary', 'h_lin.c', unary=1, lo=0, hi=11, budget=90)
job('P25', 'unary2', 'h_lin.c', unary=1, lo=12, hi=18, budget=90)
for (m, n) in ((1, 2), (2, 1), (2, 2)):
    job('P25', 'prod%d%d' % (m, n), 'h_lin.c', mat=1, m=m, n=n, lo=0, hi=7, budget=90)
    job('P25', 'mat%d%d' % (m, n), 'h_lin.c', mat=1, m=m, n=n, lo=8, hi=18, budget=90)
job('P25', 'sym', 'h_lin.c', mat=1, m=2, n=2, triu=1, lo=0, hi=18, budget=90)
job('P25', 'm0', 'h_lin.c', mat=1, m=0, n=2, lo=0, hi=18, budget=90)
job('P25', 'sym3', 'h_lin.c', mat=1, m=3, n=3, triu=1, lo=0, hi=18, tier='thorough', budget=600)
job('P25', 'mat32', 'h_lin.c', mat=1, m=3, n=2, lo=0, hi=18, tier='thorough', budget=600)
prop('P26')
for op in range(12):
    job('P26', 'op%d' % op, 'h_csc.c', lo=op, hi=op, m=2, n=2, budget=90)
for op in (0, 1, 2, 6, 7):
    job('P26', 'm0op%d' % op, 'h_csc.c', lo=op, hi=op, m=0, n=2, budget=60)
    job('P26', 'm3op%d' % op, 'h_csc.c', lo=op, hi=op, m=3, n=2, tier='thorough' if op > 2 else 'quick', budget=300)
job('P26', 'perm3', 'h_csc.c', lo=5, hi=5, m=3, n=3, budget=120)
job('P26', 'sym3', 'h_csc.c', lo=4, hi=4, m=3, n=3, budget=90)
prop('P23')
AL = dict(D01, q_0=-3, l_0=-1, u_0=1)
AL2 = dict(M22a, q_0=2, q_1=-1, l_0=-1, u_0=1, l_1=-2, u_1=3)
SQ = dict(P_0_0=4, A_0_0=1, q_0=-3, l_0=-1, u_0=1)
for (nm_, kw) in (('direct', dict(n=1, m=1, fix=AL)), ('scaled', dict(n=1, m=1, scaling=1, fix=SQ)), ('scalar', dict(n=1, m=1, rho_is_vec=0, fix=AL)),
                  ('indirect', dict(n=1, m=1, linsys=2, fix=AL)), ('indscalar', dict(n=1, m=1, linsys=2, rho_is_vec=0, fix=AL)),
                  ('direct22', dict(n=2, m=2, Pm=15, Am=15, fix=AL2)), ('m0', dict(n=2, m=0, Pm=15, fix=dict(M22a, q_0=2, q_1=-1))),
                  ('P0', dict(n=1, m=1, Pm=0, fix=dict(A_0_0=1, q_0=-3, l_0=-1, u_0=1))), ('A0', dict(n=1, m=1, Am=0, fix=dict(P_0_0=1, q_0=-3, l_0=-1, u_0=1)))):
    job('P23', 'setup-' + nm_, 'h_alloc.c', budget=90, **kw)
for (nm_, kw) in (('direct', {}), ('indirect', dict(linsys=2)), ('scaled', dict(scaling=1, fix=SQ))):
    job('P23', 'polish-' + nm_, 'h_alloc.c', what=1, polishing=1, max_iter=4, eps_abs=10.0, budget=90, **dict(dict(n=1, m=1, fix=AL), **kw))
for op in range(7):
    job('P23', 'op%d' % op, 'h_alloc.c', what=1, op=op, n=1, m=1, scaling=1, fix=SQ, budget=60)
    job('P23', 'indop%d' % op, 'h_alloc.c', what=1, op=op, n=1, m=1, linsys=2, fix=AL, budget=60)
job('P23', 'new21', 'h_alloc.c', what=2, n=2, m=2, Pm=15, Am=15, fix=AL2, budget=90)
job('P23', 'new13', 'h_alloc.c', what=2, n=1, m=3, Pm=1, Am=5, fix=dict(P_0_0=2, q_0=1, A_0_0=3, A_2_0=4, l_0=-1, u_0=1, l_1=-1, u_1=1, l_2=0, u_2=2), budget=90)
job('P23', 'new32', 'h_alloc.c', what=2, n=3, m=2, Pm=0x111, Am=0, fix=dict(P_0_0=2, P_1_1=1, P_2_2=3, q_0=1, q_1=0, q_2=2, l_0=-1, u_0=1, l_1=-1, u_1=1), budget=90)

prop('P27')
K1 = dict(P_0_0=2, A_0_0=3, l_0=-1, u_0=1)
K2 = dict(P_0_0=4, P_0_1=1, P_1_1=2, A_0_0=1, A_0_1=2, A_1_0=3, A_1_1=1, l_0=-1, u_0=1, l_1=0, u_1=2)
N2 = dict(n=2, m=2, Pm=15, Am=15)
def cg(name, **kw):
    kw.setdefault('budget', 90)
    job('P27', name, 'h_cg.c', **kw)
for n in (1, 2):
    for m in (0, 1, 2):
        cg('operator%d%d' % (n, m), what=1, n=n, m=m)
cg('tolerance', what=2)
cg('tolerance2', what=2, cg_tol_fraction=0.5)
cg('one', fix=K1)
cg('one2', fix=K1, ops=5)
cg('one3', fix=K1, ops=56)
cg('up', fix=K1, ops=57, it=2)
cg('halve', fix=dict(K1, v0_0=1, v0_1=1), ops=555, interval=1)
cg('rho', fix=K1, ops=1)
cg('mat', fix=K1, ops=2)
cg('matP', fix=K1, ops=8)
cg('matA', fix=K1, ops=8, aonly=1)
cg('matzero', fix=K1, ops=2, zerocount=1)
cg('matPzero', fix=K1, ops=8, zerocount=1)
cg('matAzero', fix=K1, ops=8, aonly=1, zerocount=1)
cg('n2capmatA', fix=K2, capped=1, cg_max_iter=1, ops=8, aonly=1, **N2)
cg('n2capmatP', fix=K2, capped=1, cg_max_iter=1, ops=8, **N2)
cg('n2capmat0', fix=K2, capped=1, cg_max_iter=1, ops=2, zerocount=1, **N2)
cg('eq', fix=K1, ops=3)
cg('set', fix=K1, ops=4)
cg('free', fix=K1, types=4)
cg('scalar', fix=K1, ops=13, rho_is_vec=0)
cg('scalar2', fix=K1, rho='2', rho_is_vec=0)
cg('halve2', fix=dict(K1, v0_0=1, v0_1=1), ops=5555, interval=2)
cg('m0', fix=K1, m=0)
cg('lp', fix=K1, Pm=0)
cg('noA', fix=K1, Am=0)
cg('noprec', fix=K1, cg_precond=0)
B2 = dict(b_0=3, b_1=1, b_2=-1, b_3=2, v0_0=1, v0_1=-2, v0_2=0, v0_3=4)
cg('n2', fix=dict(K2, **B2), ops=5, symroot=1, **N2)
cg('n2np', fix=dict(K2, **B2), ops=5, symroot=1, cg_precond=0, **N2)
cg('n2mat', fix=dict(K2, **B2), ops=25, symroot=1, **N2)
cg('n2cold', fix=dict(K2, b_0=1, b_1=1, b_2=-1, b_3=2), **N2)
cg('n2cap', fix=dict(K2, b_1=1, b_2=-1, b_3=2), capped=1, cg_max_iter=1, **N2)
cg('n2capnp', fix=dict(K2, b_1=1, b_2=-1, b_3=2), capped=1, cg_max_iter=1, cg_precond=0, **N2)
cg('n2set', fix=dict(K2, b_1=1, b_2=-1, b_3=2), ops=4, capped=1, newcap=1, cg_precond=0, **N2)
cg('setlow', fix=K1, ops=945, newfrac='0.0625')
CAP = dict(fix=dict(K2, b_0=3, b_1=1, b_2=-1, b_3=2), capped=1, cg_max_iter=1, it=1)
CAP.update(N2)
cg('n2capmat', **dict(CAP, ops=2))
cg('n2caprho', **dict(CAP, ops=1))
cg('n2capeq', **dict(CAP, ops=3))
cg('n2capset', **dict(CAP, ops=4, newcap=1, newfrac='1e-6', cg_max_iter=9))
cg('n2capset2', **dict(CAP, ops=424, newcap=1, newfrac='1e-6', cg_max_iter=9))
cg('polish', what=3, fix=K1, delta='0.015625')
cg('polish2', what=3, fix=dict(K2, b_0=3, b_1=1, b_2=-1, b_3=2), delta='0.015625', **N2)

prop('P34')
CV = dict(inertia=1, budget=90)
state('P34', 'n1m0', n=1, m=0, Pm=1, fix={}, **CV)
state('P34', 'n1m1', n=1, m=1, Pm=1, Am=1, fix={}, **CV)
state('P34', 'n1m1sig', n=1, m=1, Pm=1, Am=1, fix={}, sigma=2, rho=0.25, types=1, **CV)
state('P34', 'n1eq', n=1, m=1, Pm=1, Am=1, types=3, fix={}, **CV)
state('P34', 'n1free', n=1, m=1, Pm=1, Am=1, types=4, fix={}, **CV)
state('P34', 'n1scalar', n=1, m=1, Pm=1, Am=1, types=3, rho_is_vec=0, fix={}, **CV)
state('P34', 'n1m2', n=1, m=2, Pm=1, Am=3, fix=dict(A_0_0=1, A_1_0=-2), types=30, **CV)
state('P34', 'n2m0', n=2, m=0, Pm=13, fix={}, **CV)
state('P34', 'n2diag', n=2, m=0, Pm=9, fix={}, **CV)
state('P34', 'n2off', n=2, m=0, Pm=4, fix={}, **CV)
state('P34', 'n2m1', n=2, m=1, Pm=13, Am=3, fix=dict(A_0_0=1, A_0_1=2, P_0_1=3), **CV)
state('P34', 'n2m1b', n=2, m=1, Pm=13, Am=3, fix=dict(A_0_0=1, A_0_1=-1, P_0_0=-2), **CV)
state('P34', 'polish', n=1, m=1, Pm=1, Am=1, polishing=1, fix={}, **CV)
solve('P34', 'diverge', what=32768, fix=dict(P_0_0=-1, A_0_0=1), sigma=4, rho='1e-3', ws=3, check_dualgap=0, **N1)
solve('P34', 'diverge0', what=32768, fix=dict(P_0_0=-1), sigma=4, n=1, m=0, Pm=1, ws=1, check_dualgap=0)
solve('P34', 'diverge2', what=32768, fix=dict(P_0_0=-1, A_0_0=1, q_0=1), sigma=4, rho='1e-3', ws=1, max_iter=2, check_dualgap=0, types=1, **N1)
solve('P34', 'divergelast', what=32768, fix=dict(P_0_0=-1, A_0_0=1, q_0=1, y0_0=0), sigma=4, rho='1e-3', ws=3, types=1, check_termination=0, check_dualgap=0, **N1)
solve('P34', 'divergel0', what=32768, fix=dict(P_0_0=-1), sigma=4, n=1, m=0, Pm=1, ws=1, check_termination=0, check_dualgap=0)
solve('P34', 'divergel2', what=32768, fix=dict(P_0_0=-1, A_0_0=1, q_0=1), sigma=4, rho='1e-3', ws=1, max_iter=2, check_termination=3, check_dualgap=0, types=1, **N1)
solve('P34', 'divergesc', what=32768, fix=D1S, scaling=1, ws=3, check_dualgap=0, **N1)

prop('P35')
VB = dict(verbose=0, verb2=1, fresh=0, fin=30)
hist('P35', 'one', 0, n=1, m=1, Pm=1, Am=1, **VB)
hist('P35', 'two', 0, n=1, m=1, Pm=1, Am=1, max_iter=2, **dict(VB, fix=dict(D1, q_0=3, x0_0=1)))
hist('P35', 'nocheck', 0, n=1, m=1, Pm=1, Am=1, check_termination=0, **VB)
hist('P35', 'check2', 0, n=1, m=1, Pm=1, Am=1, check_termination=2, max_iter=3, **dict(VB, fix=dict(D1, q_0=3, x0_0=1, l_0=-1)))
hist('P35', 'scaled', 0, n=1, m=1, Pm=1, Am=1, scaling=1, **dict(VB, fix=D1S))
hist('P35', 'polish', 0, n=1, m=1, Pm=1, Am=1, polishing=1, polish_refine_iter=0, delta=1, types=1, chkrho=0, check_dualgap=0, eps_abs=10, **dict(VB, fix=dict(D1, x0_0=1, y0_0=0, l_0=2)))
hist('P35', 'adapt', 0, n=1, m=1, Pm=1, Am=1, adaptive_rho=1, ar_interval=1, max_iter=1, check_termination=0, **dict(VB, fix=dict(BX, x0_0=1, y0_0=0)))
hist('P35', 'pinf', 0, n=1, m=2, Pm=1, Am=3, types=21, **dict(VB, fix=dict(PI1, q_0=0, x0_0=0, y0_0=0, y0_1=0)))
hist('P35', 'm0', 0, n=2, m=0, Pm=15, Am=0, **dict(VB, fix=dict(P_0_0=2, P_0_1=1, P_1_1=1)))
hist('P35', 'indirect', 0, n=1, m=1, Pm=1, Am=1, linsys=2, **dict(VB, fix=dict(D1, q_0=1, x0_0=1)))
hist('P35', 'switch', 26, n=1, m=1, Pm=1, Am=1, **dict(VB, verb2=0))
hist('P35', 'switchoff', 126, ops2=1, n=1, m=1, Pm=1, Am=1, **dict(VB, verbose=1, fix=dict(D1, q_0=3, x0_0=1)))
hist('P35', 'again', 301, ops2=301, n=1, m=1, Pm=1, Am=1, **dict(VB, fix=dict(D1, q_0=3)))
timed('P35', 'limit', mode=8, symtime=1, verbose=1, max_iter=2, nt=6, fix=FX, **E9)
timed('P35', 'limit0', mode=8, symtime=1, verbose=1, max_iter=2, nt=6, fix=FX, check_termination=0, **E9)
timed('P35', 'limitone', mode=8, symtime=1, verbose=1, max_iter=1, nt=5, fix=dict(BX), check_termination=0)

prop('P36')


def eqv(pid, name, **kw):
    kw.setdefault('cfg', HC)
    kw.setdefault('budget', 120)
    job(pid, name, 'h_sym.c', **kw)


ME = {'P_0_0': 4, 'P_0_1': 1, 'P_1_1': 2, 'A_0_0': 1, 'A_0_1': 2, 'A_1_0': 1, 'A_1_1': 0}
RW = dict(n=1, m=2, Pm=1, Am=3, vp=0, cp=1)
R1 = {'P_0_0': 4, 'A_0_0': 2, 'A_1_0': 1}
V1 = dict(n=1, m=1, Pm=1, Am=1, vp=0, cp=0)
eqv('P36', 'rows', fix=dict(R1, q_0=1), **RW)
eqv('P36', 'rowsq', fix=dict(R1, l_0=-1, u_0=1, l_1=-2, u_1=3), ops=15, **RW)
eqv('P36', 'rowstypes', types=21, fix=dict(R1, q_0=1), **RW)
eqv('P36', 'rowseqfree', types=43, fix=R1, **RW)
eqv('P36', 'rowseqone', types=13, fix=dict(R1, q_0=1, l_1=-1), **RW)
eqv('P36', 'rowsigns', cs=10, types=13, fix=dict(R1, q_0=1, l_1=-1), **RW)
eqv('P36', 'rowsign', vs=0, cs=1, fix=dict(D1, q_0=3, l_0=-1), **V1)
eqv('P36', 'rowsignq', vs=0, cs=1, fix=dict(D1, u_0=2, l_0=-1), **V1)
eqv('P36', 'rowsignlow', vs=0, cs=1, types=1, fix=dict(D1, q_0=3), **V1)
eqv('P36', 'rowsigneq', vs=0, cs=1, types=3, fix=dict(D1, q_0=3), **V1)
eqv('P36', 'rowsignscalar', vs=0, cs=1, rho_is_vec=0, fix=dict(D1, q_0=3, l_0=-1), **V1)
eqv('P36', 'rowsignwarm', ops=15, vs=0, cs=1, check_dualgap=0, fix=dict(D1, q_0=3, x0_0=1, l_0=-1, u_0=2), **V1)
eqv('P36', 'varsign', vs=1, cs=0, fix=D1, **V1)
eqv('P36', 'varsignwarm', ops=15, vs=1, cs=0, check_dualgap=0, fix=dict(D1, l_0=-1, u_0=2), **V1)
eqv('P36', 'bothsign', vs=1, cs=1, fix=dict(D1, q_0=3, l_0=-1), **V1)
eqv('P36', 'lower', ops=141, cs=1, fix=dict(D1, q_0=3, l_0=-1, u_0=2), **V1)
eqv('P36', 'bounds', ops=131, cs=1, fix=dict(D1, q_0=3, l_0=-1, u_0=2), **V1)
eqv('P36', 'boundseq', ops=131, types=1, types1=3, cs=1, fix=dict(D1, q_0=3, l_0=-1), **V1)
eqv('P36', 'cost', ops=121, vs=1, fix=dict(D1, q_0=3, l_0=-1, u_0=2), **V1)
eqv('P36', 'rho', ops=161, cs=1, check_dualgap=0, fix=dict(D1, q_0=3, l_0=-1), **V1)
eqv('P36', 'scaled', scaling=1, cs=1, fix=dict(D1S, l_0=-1), **V1)
eqv('P36', 'scaledup', scaling=1, cs=1, vs=1, fix=dict(D1T, u_0=1), **V1)
eqv('P36', 'polish', polishing=1, polish_refine_iter=0, delta=1, cs=1, types=1, check_dualgap=0, eps_abs=10, ops=15, fix=dict(D1, x0_0=1, l_0=2), **V1)
eqv('P36', 'polishup', polishing=1, polish_refine_iter=0, delta=1, cs=1, types=2, check_dualgap=0, eps_abs=10, ops=15, fix=dict(D1, x0_0=1, u_0=-2), **V1)
eqv('P36', 'polishrows', polishing=1, polish_refine_iter=0, delta=1, types=21, check_dualgap=0, eps_abs=10, ops=15, fix=dict(R1, q_0=1, x0_0=0, y0_1=1, l_0=1, u_1=-3), **RW)
eqv('P36', 'pinf', cs=10, types=21, fix=dict(PI1, q_0=0, l_0=3), **RW)
eqv('P36', 'pinfscaled', cs=10, types=21, scaling=1, fix=dict(A_0_0=4, A_1_0=4, P_0_0=16, q_0=8, l_0=3), **RW)
eqv('P36', 'dinf', n=1, m=1, Pm=0, Am=1, vp=0, cp=0, vs=1, types=1, fix=dict(A_0_0=1))
eqv('P36', 'dinf2', n=1, m=1, Pm=0, Am=1, vp=0, cp=0, cs=1, types=1, fix=dict(A_0_0=1, l_0=-1))
eqv('P36', 'perm', vp=1, cp=1, fix=dict(ME, q_0=1, l_0=-1, u_0=1))
eqv('P36', 'permtypes', vp=1, cp=1, types=13, fix=dict(ME, q_0=1, l_0=-1))
eqv('P36', 'permsign', vp=1, cp=1, vs=1, cs=10, fix=dict(ME, q_0=1, l_0=-1, u_0=1))
eqv('P36', 'permscaled', vp=1, cp=1, scaling=1, fix=dict(HS, l_0=-1, u_0=1, l_1=-2))
eqv('P36', 'zeros', fill=1, vp=10, cp=10, Pm=9, Am=6, fix=dict(ME, q_0=1, l_0=-1, u_0=1))
eqv('P36', 'zeroP', fill=1, n=1, m=1, Pm=0, Am=1, vp=0, cp=0, fix=dict(A_0_0=1))
eqv('P36', 'zeroA', fill=1, n=1, m=1, Pm=1, Am=0, vp=0, cp=0, fix=dict(P_0_0=2))
eqv('P36', 'zerosscaled', fill=1, vp=10, cp=10, Pm=9, Am=9, scaling=1, fix=dict(P_0_0=16, P_1_1=1, A_0_0=4, A_1_1=4, q_0=3, q_1=-1, l_0=-1, u_0=1, l_1=-2))
eqv('P36', 'zerospolish', fill=1, vp=10, cp=10, Pm=9, Am=9, polishing=1, polish_refine_iter=0, delta=1, types=12, check_dualgap=0, eps_abs=10, ops=15, fix=dict(P_0_0=4, P_1_1=1, A_0_0=2, A_1_1=1, q_0=1, q_1=1, u_0=-2, l_1=2, x0_0=-1, x0_1=1, y0_0=1))
eqv('P36', 'indirect', linsys=2, cs=1, fix=dict(D1, q_0=1, l_0=-1), **V1)
eqv('P36', 'iter2', max_iter=2, cs=1, fix=dict(D1, q_0=3, l_0=-1), **V1)
