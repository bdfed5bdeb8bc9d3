"""Harness-side acceleration of dolfin's JIT (nothing of FESTIM is touched).

FESTIM bakes every numeric literal into C++ expressions and UFL forms, so that
each generated parameter set would cost several C++ compilations.  Here

* numeric literals of ``Expression`` C++ strings are hoisted into named
  properties (``_h0``, ``_h1`` ...), and
* ``FloatValue`` literals of UFL forms are replaced by ``Constant``
  coefficients right before the form is handed to FFC (exponents stay literal),

so that compiled code is shared by all cases of the same structure.  Both are
value preserving rewrites.
"""
import os
import re
import shutil
import subprocess
import uuid
import dolfin
import dolfin.function.jit as fjit
import dolfin.function.expression as fexpr
import dolfin.fem.form as fform
import ufl_legacy as ufl
from ufl_legacy.corealg.multifunction import MultiFunction
from ufl_legacy.algorithms.map_integrands import map_integrand_dags
from ufl_legacy.constantvalue import ScalarValue

_num = re.compile(
    r"(?<![\w.\]])(\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)(?![\w.])"
)
_int = re.compile(r"\s*[+-]?\d+\s*$")
_done = False


def _hoist(statement, props):
    def sub(m):
        name = "_h%d" % sum(1 for k in props if k.startswith("_h"))
        props[name] = float(m.group(1))
        return name

    if _int.match(statement):
        props["_h0"] = float(statement)
        return "_h0"
    return _num.sub(sub, statement)


class _Lift(MultiFunction):
    expr = MultiFunction.reuse_if_untouched

    def __init__(self):
        super().__init__()
        self.keep = []

    def terminal(self, o):
        return o

    def float_value(self, o):
        c = dolfin.Constant(float(o))
        self.keep.append(c)
        return c

    def power(self, o, base, expo):
        oexpo = o.ufl_operands[1]
        if isinstance(oexpo, ScalarValue):
            expo = oexpo
        if base == o.ufl_operands[0] and expo is oexpo:
            return o
        return base**expo

    # objects below may hold literals as multi-index like data: leave alone
    def multi_index(self, o):
        return o


def install():
    global _done
    if _done:
        return
    _done = True
    orig_compile = fjit.compile_expression

    def compile_expression(statements, properties):
        if isinstance(statements, str):
            hoisted = {}
            st = _hoist(statements, hoisted)
            if hoisted and not any(k in properties for k in hoisted):
                props = dict(properties)
                props.update(hoisted)
                obj = orig_compile(st, props)
                for k, v in hoisted.items():
                    obj.set_property(k, v)
                properties.pop("mpi_comm", None)
                return obj
        return orig_compile(statements, properties)

    fjit.compile_expression = compile_expression

    orig_init = fform.Form.__init__

    def __init__(self, form, **kwargs):
        if isinstance(form, ufl.Form):
            lift = _Lift()
            try:
                new = map_integrand_dags(lift, form)
                ok = isinstance(new, ufl.Form) and len(new.integrals()) == len(
                    form.integrals()
                )
            except Exception:
                ok = False
            if ok:
                self._vf_keep = lift.keep
                form = new
        orig_init(self, form, **kwargs)

    fform.Form.__init__ = __init__
    dolfin.parameters["form_compiler"]["cpp_optimize"] = False
    _fast_builds()


PCH = {
    "ffc_": """#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <vector>
#include <ufc.h>
""",
    "dolfin_": """#include <dolfin/function/Expression.h>
#include <dolfin/math/basic.h>
#include <Eigen/Dense>
""",
}
_FLAGS = ["-shared", "-fPIC", "-std=c++11", "-O0"]


def pch(kind, includes):
    """precompiled header of the generated code, next to the form cache"""
    cache = os.environ.get("DIJITSO_CACHE_DIR")
    if not cache:
        return None
    d = os.path.join(os.path.dirname(cache), "pch")
    h = os.path.join(d, kind + "pch.h")
    if os.path.exists(h + ".gch"):
        return h
    try:
        os.makedirs(d, exist_ok=True)
        with open(h + ".tmp%d" % os.getpid(), "w") as o:
            o.write(PCH[kind])
        os.replace(o.name, h)
        out = h + ".gch%d" % os.getpid()
        cmd = ["g++", *_FLAGS, *includes, "-x", "c++-header", h, "-o", out]
        subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.replace(out, h + ".gch")
        return h
    except Exception:
        return None


def pchs():
    import ffc.backends.ufc as ufc
    from dolfin.jit.jit import dolfin_pc

    return {
        "ffc_": pch("ffc_", ["-I" + ufc.get_include_path()]),
        "dolfin_": pch("dolfin_", ["-I" + x for x in dolfin_pc["include_dirs"]]),
    }


def _fast_builds():
    """cheaper compilation of the same C++ code: no warnings, no optimisation,
    precompiled header, plain atomic renames instead of directory scans"""
    import dijitso.build as b
    import dijitso.system as y

    def move(src, dst):
        tmp = "%s.%s" % (dst, uuid.uuid4().hex)
        shutil.move(src, tmp)
        os.replace(tmp, dst)

    for m in (b, y):
        m.lockfree_move_file = move
    orig = b.make_compile_command
    heads = pchs()

    def command(src, lib, deps, build, cache):
        args = orig(src, lib, deps, build, cache)
        kind = os.path.basename(src).split("_")[0] + "_"
        if kind in heads:
            head = heads[kind]
            keep = [a for a in args[1:] if not (a in _FLAGS or a.startswith(("-O", "-g", "-W", "-fno", "-ffin")) and not a.startswith("-Wl"))]
            args = args[:1] + _FLAGS + (["-include", head] if head else []) + keep
        return args

    b.make_compile_command = command
