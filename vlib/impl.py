"""spec/ImplMC.tla: the algorithm inside the object refines Micropp.tla; named
mistakes do not (which shows that the refinement check can fail)."""
from .common import *

DEFECTS = ["ctor-junk", "set-front", "stress-unset", "update-scratch", "update-swap", "write-pending",
           "load-virgin-skipped", "shortcut-always", "shortcut-returns", "iterate-old", "average-skips",
           "flag-sticky", "alloc-junk", "alloc-new", "save-if-yields", "save-late", "tangent-saves",
           "tangent-stress", "output-pending", "output-unloaded", "output-saves"]


def impl_cfg(defect, calls):
    k = dict(Respond="BarRespond", Linear="BarLinear", Below="BarBelow", Virgin="BarVirgin", NoSig="BarNoSig",
             Junks="BarJunks", Strains="BarStrains", Ids="{1, 2}", Perturbations=1, Defect='"%s"' % defect,
             MaxCalls=calls, Depth=2)
    k["None"] = "BarNone"
    return cfgtext("ISpec", k, ["NoJunk", "Paired"], ["Refines"])


def impl_model(c, some=()):
    """some: mistakes to be tried in the quick tier (all of them otherwise)."""
    r = model_check("ImplMC", c.work, impl_cfg("", 5 if c.quick else 7), timeout=3000)
    c.add_model(r, "ImplMC refines Micropp")

    def bad(d):
        return d, tlc("ImplMC", c.work, impl_cfg(d, 5), workers=2, timeout=900)
    with ThreadPoolExecutor(4) as ex:
        for d, r in ex.map(bad, some if c.quick else DEFECTS):
            if r.rc not in (12, 13):
                raise CheckError("ImplMC accepts the mistake %s:\n%s" % (d, r.out[-2000:]))
            c.count("model_mistakes_rejected")
