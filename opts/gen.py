#!/usr/bin/env python3
"""Generates client programs of #[derive_opt]: structs with random fields, and
for each a driver that applies random sequences of option calls to the real
builder and to a plain model struct (which the macro never sees)."""
import random
import sys

# type, expression of a random value, [argument forms: expression in terms of a
# fresh value `v`], for optional fields: the type inside the Option
TYPES = [
    # (type, value, [(argument type's expression, value it must become)])
    ("String", "r.string()", ["{v}.clone()", "{v}.as_str()", "{v}.clone().into_boxed_str()"]),
    ("usize", "r.u64() as usize", ["{v}"]),
    ("f32", "r.f32()", ["{v}"]),
    ("f64", "r.f32() as f64", ["{v}", "({v} as f32)"]),
    ("u64", "(r.u64() as u32) as u64", ["{v}", "({v} as u32)"]),
    ("u8", "r.u64() as u8", ["{v}"]),
    ("i32", "(r.u64() as i16) as i32", ["{v}", "({v} as i16)"]),
    ("i128", "(r.u64() as i64) as i128", ["{v}", "({v} as i64)"]),
    ("bool", "r.u64() % 2 == 1", ["{v}"]),
    ("char", "(r.u64() as u8) as char", ["{v}", "(u32::from({v}) as u8)"]),
    ("&'static str", "STRS[r.below(STRS.len())]", ["{v}"]),
    ("Vec<u8>", "r.bytes()", ["{v}.clone()", "{v}.as_slice()", "{v}.clone().into_boxed_slice()"]),
    ("[u16; 3]", "[r.u64() as u16, r.u64() as u16, r.u64() as u16]", ["{v}"]),
    ("(u8, String)", "(r.u64() as u8, r.string())", ["{v}.clone()"]),
    ("Level", "Level::pick(r)", ["{v}.clone()", "{v}.number()"]),
    ("Option<u8>", "r.option()", ["{v}"]),
    ("Box<u16>", "Box::new(r.u64() as u16)", ["{v}.clone()", "*{v}"]),
    ("std::sync::Arc<str>", "std::sync::Arc::<str>::from(r.string())", ["{v}.clone()", "&*{v}"]),
]
NAMES = ["n", "name", "value", "length", "r#type", "self_", "dflt", "some", "option", "a", "b", "c", "d",
         "color_map", "x0", "x1", "r#loop", "into_x", "arg", "data", "fields", "opt", "axis", "width", "is_set"]


def gen(seed, n):
    rnd = random.Random(seed)
    out = []
    calls = []
    for k in range(n):
        nf = k if k <= 3 else rnd.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 14])
        names = rnd.sample(NAMES, nf)
        same = rnd.random() < 0.4
        pick = rnd.choice(TYPES)
        fields = []
        for i, name in enumerate(names):
            # the catalogue is covered in turn; some structs have equal types
            ty = pick if same else TYPES[(k * 5 + i * 7 + rnd.randrange(3)) % len(TYPES)]
            opt = rnd.random() < 0.6
            if ty[0].startswith("Option"):
                opt = True  # a plain Option field is the optional case
            fields.append((name, ty, opt))
        s, m, t = f"Arg{k}", f"Model{k}", f"Opt{k}"
        manual = rnd.random() < 0.6
        # Level and &str have their own defaults; arrays and tuples derive
        derive = "#[derive(Clone, Debug, PartialEq%s)]" % ("" if manual else ", Default")
        vis = rnd.choice(["", "pub ", "pub(crate) "])

        def body():
            b = ""
            for name, ty, opt in fields:
                d = rnd.choice(["", "", "    /// a documented field\n", "    #[allow(unused)]\n"])
                full = f"Option<{ty[0]}>" if opt else ty[0]
                b += f"{d}    {vis}{name}: {full},\n"
            return b

        st = rnd.getstate()
        b1 = body()
        rnd.setstate(st)
        b2 = body()
        pos = rnd.random() < 0.5
        if pos:
            out.append(f"#[derive_opt({t})]\n{derive}\n{vis}struct {s} {{\n{b1}}}\n")
        else:
            out.append(f"{derive}\n#[derive_opt({t})]\n{vis}struct {s} {{\n{b1}}}\n")
        out.append(f"{derive}\n{vis}struct {m} {{\n{b2}}}\n")
        if manual:
            ds, dm = "", ""
            for name, ty, opt in fields:
                if opt and rnd.random() < 0.5:
                    e = "None"
                else:
                    e = f"({ty[1]})"
                    if opt:
                        e = f"Some{e}"
                ds += f"{name}: {e}, "
            sd = rnd.randrange(1 << 62)
            for q in (s, m):
                out.append(f"impl Default for {q} {{ fn default() -> Self {{ let r = &mut Rng({sd}); let _ = &r; {q} {{ {ds} }} }} }}\n")
        # equality and the step function
        eq = " && ".join(f"a.{nm} == b.{nm}" for nm, _, _ in fields) or "true"
        diff = "".join(f'if a.{nm} != b.{nm} {{ d += &format!(" field {nm}: {{:?}}, expected {{:?}};", a.{nm}, b.{nm}); }}\n' for nm, _, _ in fields)

        def arms(recv):
            o, idx = "", 0
            for nm, ty, opt in fields:
                forms = ty[2] if opt else [ty[2][0]]
                for f in forms:
                    e = f.replace("{v}", "v")
                    val = "Some(v)" if opt else "v"
                    o += f"            {idx} => {{ let v: {ty[0]} = {ty[1]}; log.push(format!(\"{nm}({{:?}})\", v)); let next = {t}::{nm}({recv}, {e}); model.{nm} = {val}; next }}\n"
                    idx += 1
            return o, idx

        a1, cnt = arms("()")
        a2, _ = arms("arg")
        out.append(f"""
#[allow(unused)]
fn run{k}(cx: &mut Cx, r: &mut Rng) {{
    let take = |o: {s}| -> {s} {{ fn go(o: impl {t}) -> {s} {{ o.into_arg() }} go(o) }};
    let differs = |a: &{s}, b: &{m}| -> Option<String> {{
        if {eq} {{ return None }}
        let mut d = String::new();
        {diff}
        Some(d)
    }};
    let mut log: Vec<String> = Vec::new();
    let mut model = {m}::default();
    let none: {s} = {{ fn go(o: impl {t}) -> {s} {{ o.into_arg() }} go(()) }};
    cx.check("{s}", &log, differs(&none, &model));
    let steps = if {cnt} == 0 {{ 0 }} else {{ r.below(12) }};
    let mut arg: {s} = {s}::default();
    for i in 0..steps {{
        let op = r.below({max(cnt, 1)});
        let from_nil = i == 0 && r.below(2) == 0;
        if i == 0 {{ log.push(if from_nil {{ "()".into() }} else {{ "default".into() }}); }}
        let before = arg.clone();
        arg = if from_nil {{ match op {{
{a1}            _ => before, }} }} else {{ match op {{
{a2}            _ => before, }} }};
        cx.event("{s}", op);
        cx.check("{s}", &log, differs(&arg, &model));
        if r.below(8) == 0 {{
            // one value goes through a function that takes options
            arg = take(arg);
            log.push("into_arg".into());
            cx.check("{s}", &log, differs(&arg, &model));
        }}
    }}
    cx.end("{s}", &log);
}}
""")
        calls.append(f"run{k}")
    out.append("pub const RUNS: &[fn(&mut Cx, &mut Rng)] = &[%s];\n" % ", ".join(calls))
    return "".join(out)


if __name__ == "__main__":
    sys.stdout.write(gen(int(sys.argv[1]), int(sys.argv[2])))
