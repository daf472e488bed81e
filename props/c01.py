from props import api
from vf import iface
FLOOR = 100
def run(ctx):
    iface.K(); iface.structs.layouts()
    mods = ctx.load(*api.SRC)
    iface.check_all(ctx, mods, api.A, {'effect'})
