#!/usr/bin/env python3
# Writes full/fmt/src/syntax_table.rs: the public names of the generated syntax crates, as a table.
# Only names come from there; what they mean is checked against the grammar when P03 runs.
import re, os

R = "/repo/crates"
nodes = open(f"{R}/air_r_syntax/src/generated/nodes.rs").read()
fac = open(f"{R}/air_r_factory/src/generated/node_factory.rs").read()
kind = open(f"{R}/air_r_syntax/src/generated/kind.rs").read()

def snake(name):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", name).lower()

out = ["// Written by full/tools/syntax_table.py", "use super::*;", "use air_r_factory as make;", ""]
fields = {m[1]: re.findall(r"pub (\w+): ([^,\n]+),", m[2]) for m in re.finditer(r"pub struct (\w+)Fields \{(.*?)\n\}", nodes, re.S)}
fns = {m[1]: ([re.match(r"\s*(\w+): (\w+)", a).groups() for a in re.split(r",\s*", m[2].strip().rstrip(",")) if a.strip()], m[3])
       for m in re.finditer(r"^pub fn (\w+)\(([^)]*)\) -> (\w+) \{", fac, re.M)}

def inner(ty):
    m = re.match(r"(SyntaxResult|Option)<(\w+)>", ty)
    return m[2] if m else ty

def element(expr, ty):  # expr: of that type
    return f"token({expr})" if ty == "SyntaxToken" else f"node({expr})"

def from_element(expr, ty):
    return f"as_token({expr})" if ty == "SyntaxToken" else f"as_node::<{ty}>({expr})"

out.append("pub fn nodes() -> Vec<NodeEntry> {\n    vec![")
for name, fs in sorted(fields.items()):
    slots = []
    for f, ty in fs:
        t = inner(ty)
        read = lambda expr: (f"opt({expr}.map(|e| {element('e', t)}))" if ty.startswith("Option") else f"req({expr}.map(|e| {element('e', t)}))" if ty.startswith("SyntaxResult") else f"Got::Is({element(expr, t)})")
        slots.append(f"""                SlotEntry {{
                    name: "{f}",
                    optional: {str(ty.startswith('Option')).lower()},
                    get: |n| {read(f'cast::<{name}>(n).{f}()')},
                    field: |n| {read(f'cast::<{name}>(n).as_fields().{f}')},
                }},""")
    fname = snake(name)
    args, ret = fns[fname]
    byname = {f: inner(t) for f, t in fs}
    def slotname(a):
        return a if a in byname else a[: -len("_token")]
    call = f"make::{fname}(" + ", ".join(from_element(f'e("{slotname(a)}").unwrap()', t) for a, t in args) + ")"
    if ret.endswith("Builder"):
        m = re.search(r"\nimpl %s \{(.*?)\n\}" % ret, fac, re.S)[1]
        body = [f"let mut b = {call};"]
        for w, a, t in re.findall(r"pub fn (with_\w+)\(mut self, (\w+): (\w+)\) -> Self", m):
            body.append(f'if let Some(x) = e("{slotname(a)}") {{ b = b.{w}({from_element("x", t)}); }}')
        body.append("b.build().into_syntax()")
        call = "{ " + " ".join(body) + " }"
    else:
        call += ".into_syntax()"
    out.append(f"""        NodeEntry {{
            name: "{name}",
            can_cast: <{name} as AstNode>::can_cast,
            in_set: |k| <{name} as AstNode>::KIND_SET.matches(k),
            cast: |n| <{name} as AstNode>::cast(n).map(|n| n.into_syntax()),
            make: |e| {call},
            slots: vec![
{chr(10).join(slots)}
            ],
        }},""")
out.append("    ]\n}\n")

out.append("pub fn unions() -> Vec<UnionEntry> {\n    vec![")
for m in re.finditer(r"pub enum (Any\w+) \{(.*?)\n\}", nodes, re.S):
    name = m[1]
    variants = re.findall(r"(\w+)\((\w+)\),", m[2])
    arms = "\n".join(f'                {name}::{v}(_) => "{v}",' for v, _ in variants)
    body = re.search(r"\nimpl %s \{(.*?)\n\}" % name, nodes, re.S)[1]
    as_ = re.findall(r"pub fn (as_\w+)\(&self\) -> Option<&(\w+)>", body)
    conv = "\n".join(f'                ("{t}", |n| cast::<{name}>(n).{f}().map(|x| x.clone().into_syntax())),' for f, t in as_)
    into = "\n".join(f'                ("{v}", |n| {name}::from(cast::<{t}>(n)).into_syntax()),' for v, t in variants if f"impl From<{t}> for {name}" in nodes)
    out.append(f"""        UnionEntry {{
            name: "{name}",
            can_cast: <{name} as AstNode>::can_cast,
            in_set: |k| <{name} as AstNode>::KIND_SET.matches(k),
            cast: |n| <{name} as AstNode>::cast(n).map(|n| n.into_syntax()),
            variant: |n| match cast::<{name}>(n) {{
{arms}
            }},
            narrow: vec![
{conv}
            ],
            widen: vec![
{into}
            ],
        }},""")
out.append("    ]\n}\n")

out.append("pub fn lists() -> Vec<ListEntry> {\n    vec![")
for name in re.findall(r"pub struct (\w+List) \{", nodes):
    sep = f"impl AstSeparatedList for {name}" in nodes
    item = re.search(r"impl Ast(?:Separated|Node)List for %s \{.*?type Node = (\w+);" % name, nodes, re.S)[1]
    if sep:
        iter_ = f"cast::<{name}>(n).iter().map(|e| e.ok().map(|e| e.into_syntax())).collect()"
        mk = f"make::{snake(name)}(items.into_iter().map(|n| cast::<{item}>(&n)).collect::<Vec<_>>(), separators).into_syntax()"
    else:
        iter_ = f"cast::<{name}>(n).iter().map(|e| Some(e.into_syntax())).collect()"
        mk = f"{{ let _ = separators; make::{snake(name)}(items.into_iter().map(|n| cast::<{item}>(&n)).collect::<Vec<_>>()).into_syntax() }}"
    out.append(f"""        ListEntry {{
            name: "{name}",
            can_cast: <{name} as AstNode>::can_cast,
            in_set: |k| <{name} as AstNode>::KIND_SET.matches(k),
            cast: |n| <{name} as AstNode>::cast(n).map(|n| n.into_syntax()),
            items: |n| {iter_},
            make: |items, separators| {mk},
        }},""")
out.append("    ]\n}\n")

out.append("pub fn bogus() -> Vec<BogusEntry> {\n    vec![")
for name in re.findall(r"pub struct (RBogus\w*) \{", nodes):
    out.append(f"""        BogusEntry {{
            name: "{name}",
            can_cast: <{name} as AstNode>::can_cast,
            in_set: |k| <{name} as AstNode>::KIND_SET.matches(k),
            items: |n| cast::<{name}>(n).items().collect(),
            make: |slots| make::{snake(name)}(slots).into_syntax(),
        }},""")
out.append("    ]\n}\n")

# The T! macro
mac = kind[kind.index("macro_rules ! T"):]
toks = re.findall(r"\[(.+?)\] => \{ \$ crate :: RSyntaxKind :: (\w+) \}", mac)
out.append("pub fn macros() -> Vec<(&'static str, K)> {\n    vec![")
kinds = set(re.findall(r"^    (\w+),$", kind, re.M))
for t, k in toks:
    if k not in kinds: continue
    text = re.sub(r"^['\"](.*)['\"]$", r"\1", t)
    lit = '"' + text + '"' if text != "\\\\" else '"\\\\"'
    out.append(f"        ({lit}, T![{t}]),")
out.append("    ]\n}")
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../fmt/src/syntax_table.rs")
open(path, "w").write("\n".join(out) + "\n")
