"""The properties: their statements, where they are anchored, and how each one is checked."""
PROPS = {}


def F(harness, facet, quick, thorough, **kw):
    return dict(harness=harness, facet=facet, quick=quick, thorough=thorough, **kw)


def prop(pid, title, statement, over, text, why, files, mechanism, facets, rule, technique, note, **kw):
    assert len(title) <= 80, (pid, len(title))
    PROPS[pid] = dict(title=title, statement=statement, quantifier=dict(over=over, text=text), why=why, files=files,
                      mechanism=mechanism, facets=facets, rule=rule, technique=technique, note=note, **kw)


import os as _os
for _f in sorted(_os.listdir(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "props"))):
    if _f.endswith(".py"):
        exec(compile(open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "props", _f)).read(), _f, "exec"))

# Properties listed but not claimed.
NOT_APPLICABLE = NA if "NA" in globals() else {}
