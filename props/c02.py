from props import api
from vf import iface, prove
from vf.terms import *
FLOOR = 100
def run(ctx):
    iface.K(); iface.structs.layouts()
    mods = ctx.load(*api.SRC)
    iface.check_all(ctx, mods, api.A, {'error', 'bounds'})
    # the two angle inputs are accepted whenever they are in their domain and the adjustment of the solar angle does not report a conflict
    def adj(ex, g, args, I):
        ex.store(args[4], iface.ir.DBL, dvar('adjusted'), g); return ZERO
    def accept(dom):
        def f(c, S, rv, pre, ok, smp, what): return [('accepted in its domain', prove.prove(eq0(rv), and_(pre, dom(S)), S.facts, sampler=smp, seed=c.seed))]
        return f
    acc = [iface.Api('xrtm_set_theta_0', [iface.Dbl('theta_0')], contracts={'mu_0_singularity_adjust': adj}, custom=accept(lambda S: and_(api.SOLAR(S), api.angle(S.a['theta_0'])))),
           iface.Api('xrtm_set_out_thetas', [iface.Arr('out_thetas', 'd', api.U)], contracts={'mu_0_singularity_adjust': adj}, split=('n_stokes', (1, 2)),
                     custom=accept(lambda S: and_(lt(ZERO, api.U(S)), api.all_(api.U(S), lambda k: api.angle(S.v('out_thetas', k))))))]
    iface.check_all(ctx, mods, acc, {'accept'})
