#!/usr/bin/env python3
"""Derives the configuration headers from config/generic (a copy of what the repository's own build generates)."""
import os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "config")
g = open(f"{V}/generic/qdp_config_internal.h").read()
def deriv(name, subs):
    s = g
    for a, b in subs:
        s2 = re.sub(a, b, s); assert s2 != s, (name, a); s = s2
    os.makedirs(f"{V}/{name}", exist_ok=True); open(f"{V}/{name}/qdp_config_internal.h", "w").write(s)
CB2 = r"#define QDP_USE_CB2_LAYOUT 1"
deriv("lexico", [(CB2, "#define QDP_USE_LEXICO_LAYOUT 1")])
deriv("cb3d", [(CB2, "#define QDP_USE_CB3D_LAYOUT 1")])
deriv("cb32", [(CB2, "#define QDP_USE_CB32_LAYOUT 1")])
deriv("dp", [(r"#define BASE_PRECISION 32", "#define BASE_PRECISION 64")])
sse = (r"/\* #undef QDP_USE_SSE \*/", "#define QDP_USE_SSE 1")
deriv("ssedp", [sse, (r"#define BASE_PRECISION 32", "#define BASE_PRECISION 64")])
