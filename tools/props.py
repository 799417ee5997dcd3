"""The properties: their programs, the kinds of difference that break them, their models."""
import hashlib
import json

import props1
import props2
import props3
import props4
import props5


def digest(p):
    d = p.to_json()
    d.pop("note", None)
    return hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()[:12]


PROPS = {}


def prop(pid, kinds, **kw):
    first = next((getattr(m, "gen_" + pid) for m in (props1, props2, props4, props5) if hasattr(m, "gen_" + pid)), None)
    more = getattr(props3, "more_" + pid, None)
    PROPS[pid] = dict(kinds=kinds.split(), gen=lambda rng, k: first(rng, k) + (more(rng, k) if more else []), **kw)


prop("C01", "exit bytes symbols", must="If Repeat Rorg Space Align Data Equ Set cpu".split(), models="passes".split())
prop("C02", "exit errors outfile unresolved", must="ErrOp Include Macro mac If Repeat cpu".split(), models="passes".split())
prop("C03", "exit passes", must="If Macro mac Data Equ".split(), models="passes".split())
prop("C04", "exit bytes errors", must="cpu Data".split(), models="instructions opcodes".split())
prop("C05", "exit bytes errors", must="cpu".split(), models="opcodes".split())
prop("C06", "exit bytes errors", must="cpu".split(), models="branches".split())
prop("C07", "exit bytes symbols echo errors", must="Data Equ".split(), models="expressions texts longexpr arithmetic".split())
prop("C08", "exit bytes errors", must="Data Space Align HexData".split(), models="data".split())
prop("C09", "exit bytes outfile", must="Org Data Segment Space".split(), models="segments".split())
prop("C10", "hex", models="hex".split(), hex=True)
prop("C11", "exit bytes symbols", must="Org Rorg Rend Segment Space Align Data".split(), models="segments".split())
prop("C12", "exit bytes symbols echo", must="If IfConst IfNConst Else Endif skip Include mac".split(), models="conditions".split())
prop("C13", "exit bytes symbols echo", must="Repeat Repend If Set mac".split(), models="loops".split())
prop("C14", "exit bytes symbols echo", must="Macro Endm mac If Repeat".split(), models="macros".split())
prop("C15", "exit bytes symbols", must="Include Incbin Incdir End".split(), models="files".split())
prop("C16", "exit bytes symbols echo", must="Equ Set Eqm Setstr Setsym Subroutine mac".split(), models="scopes".split())
prop("C17", "list last", must="Listing Include mac skip Data".split(), models=["reports"])
prop("C18", "symbols symfile", must="Equ Set Eqm Setstr".split(), models=["reports"])
prop("C19", "exit bytes symbols echo", must="Data If Equ cpu".split(), models="lines".split())
prop("C20", "exit bytes echo", must="Echo Data mac".split(), models=["reports"])
prop("C21", "exit bytes symbols echo errors", must="Data Echo Equ Set If Repeat mac Include ErrOp".split(), watched=True)
prop("C22", "exit files bytes symbols symfile list passes echo errors", must="Data Echo Include Incbin IfConst cpu".split(), models="commands".split())

NOT_APPLICABLE = {}
