"""Small total functions read off completely: combinator tables."""
import absint as AI
from setops import COMB

FROM = {"": "ChildrenAll", ">": "Children", "~": "NextAll", "+": "Next"}
REVERSE = {"ChildrenAll": "ParentAll", "Children": "Parent", "NextAll": "PrevAll", "Next": "Prev", "Chain": "Chain"}


def find(F, pat):
    import re
    l = [n for n in F.bodies if re.search(pat, n)]
    return l[0] if len(l) == 1 else None


def call(F, name, args):
    I = AI.Interp(F, max_steps=4000, max_states=50)
    st = AI.St()
    st.notes["cells"] = ()
    vals = []
    for i, a in enumerate(args):
        if isinstance(a, tuple) and a and a[0] == "ref":
            st.heap["a%d" % i] = a[1]
            vals.append(("r", (("H", "a%d" % i), ())))
        else:
            vals.append(a)
    outs = I.call_fn(st, name, vals)
    return I, outs


def variant(I, s, v):
    v = I.norm(s, v)
    return v[2] if v[0] == "en" else None


def combinators(ctx):
    F = ctx.F
    fr = find(F, r"<.*selector::Combinator as std::convert::From<&.*str>>::from$")
    rv = find(F, r"selector::Combinator::reverse$")
    for rule, name, table, mk in (("combinator text", fr, FROM, lambda k: ("str", k)), ("combinator searched backwards", rv, REVERSE, lambda k: ("ref", ("en", COMB, k, None, ())))):
        if name is None:
            ctx.ob(rule, rule, "undecided", "", "function not found")
            continue
        for k, want in table.items():
            try:
                I, outs = call(F, name, [mk(k)])
            except (AI.Budget, AI.Unsupported) as e:
                ctx.ob("%s '%s'" % (rule, k), rule, "undecided", name, str(e))
                continue
            got = sorted({str(variant(I, s, v)) for s, v in outs})
            if I.panics and not outs:
                ctx.ob("%s '%s'" % (rule, k), rule, "refuted", name, "panics: " + I.panics[0]["msg"])
            elif got == [want]:
                ctx.ob("%s '%s'" % (rule, k), rule, "proven", name)
            elif len(got) == 1 and got[0] != "None":
                ctx.ob("%s '%s'" % (rule, k), rule, "refuted", name, "is %s, expected %s" % (got[0], want))
            else:
                ctx.ob("%s '%s'" % (rule, k), rule, "undecided", name, str(got))
