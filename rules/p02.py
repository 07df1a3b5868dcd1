"""Resource typestate: every acquisition of a file handle in seyfert and bin is enumerated (context expressions, assignments, openFile calls) and the
statements on every path after it are searched for the release that covers it, including the exceptional exits."""
from sa.resources import Resources

FLOOR = 30


def files_closed(ctx):
    R = Resources(ctx.prog)
    for s in R.sites:
        ctx.count("acquisition_sites")
        k = "%s:open#%s" % (s.func.qual.replace("seyfert.", "", 1), s.what)
        loc = s.func.loc(s.node)
        if s.status == "ok":
            ctx.ok(k, s.msg, loc, "typestate: " + s.msg)
        elif s.status == "undecided":
            ctx.undecided(k, s.msg, loc, "typestate")
        else:
            ctx.bad(k, s.msg, loc, "typestate")


RULES = [files_closed]
