#!/usr/bin/env python3
"""gen_c16.py OUT SEED COUNT: random model structs with an independent description of their parameters."""
import random, sys

def gen(seed, count):
    r = random.Random(seed)
    out = ["// generated"]
    concrete = []      # types usable as fields: (type text, weight of nesting)
    generics = []      # (name, ntypes kinds, consts)
    runs = []

    def ty(depth=0):
        """A field type that contains parameters, and its depth of nesting."""
        k = r.random()
        if k < 0.38 or depth > 2:
            return "Parameter<'dev>"
        if k < 0.5:
            return "Vec<Parameter<'dev>>"
        if k < 0.53:
            return "Box<Parameter<'dev>>"
        if k < 0.60:
            return "Vec<Vec<Parameter<'dev>>>"
        m = model()
        if m is None:
            return "Parameter<'dev>"
        if k < 0.8:
            return m
        if k < 0.93:
            return "Vec<%s>" % m
        if k < 0.97:
            return "Vec<Vec<%s>>" % m
        return "Box<%s>" % m

    def model():
        """A type that is a model."""
        if not concrete:
            return None
        c = r.choice(concrete[-40:])
        return c

    def bound():
        """A concrete argument for a generic model parameter."""
        k = r.random()
        if k < 0.25:
            return "Vec<Parameter<'dev>>"
        m = model()
        if m is None or k < 0.35:
            return "Vec<Vec<Parameter<'dev>>>"
        if k < 0.5:
            return "Vec<%s>" % m
        return m

    SKIP = ["f32", "String", "u32", "Option<f32>", "Vec<f32>", "(u32, f32)", "[u8; 3]",
            "Parameter<'dev>", "Vec<Parameter<'dev>>", "Option<Parameter<'dev>>", "std::marker::PhantomData<&'dev ()>"]

    # names that are easily mistaken for something else
    ODD = ["_w", "gradient", "value", "stats", "parameter", "parameters_mut", "append", "push", "model", "models", "weight", "bias", "dev",
           "device", "move_to_device", "r#fn", "r#move", "r#struct", "vec", "result", "out", "ret", "res", "p", "x", "_x", "phantom", "_marker", "m0",
           "batch_norm_running_mean_of_the_third_encoder_block", "größe", "状態", "SKIP", "field", "item", "i", "lifetime", "Parameter", "Model", "prima_undine"]
    for i in range(count):
        name = "S%d" % i
        nf = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 12])
        tparams, cparams, lts = [], [], []
        is_gen = r.random() < 0.3
        if r.random() < 0.12:
            lts.append("'a")
        if is_gen:
            tparams = ["M%d" % k for k in range(r.choice([0, 1, 1, 2]))]
            cparams = ["N%d" % k for k in range(r.choice([0, 0, 1, 2]))]
        skipt = is_gen and r.random() < 0.3     # a type parameter that is no model
        fields = []
        def add(t, skip):
            n = "f%d" % len(fields)
            q = r.random()
            if q < 0.03:
                n = "params" if not any(f[0] == "params" for f in fields) else n
            elif q < 0.06:
                n = "parameters" if not any(f[0] == "parameters" for f in fields) else n
            elif q < 0.08:
                n = "r#type" if not any(f[0] == "r#type" for f in fields) else n
            elif q < 0.12:
                n = "skip" if not any(f[0] == "skip" for f in fields) else n
            elif q < 0.3:
                c = r.choice(ODD + ["_f%d" % len(fields), "__%d" % len(fields), "F%d" % len(fields), "_%d" % len(fields), "f%d_" % len(fields), "skip_%d" % len(fields)])
                n = c if not any(f[0] == c for f in fields) else n
            fields.append((n, t, skip))
        for _ in range(nf):
            if r.random() < 0.25:
                t = r.choice(SKIP)
                m = model()
                if m and r.random() < 0.3:
                    t = r.choice(["%s", "Vec<%s>", "Option<%s>"]) % m
                add(t, True)
            else:
                add(ty(), False)
        for t in tparams:
            for _ in range(r.choice([1, 1, 2])):
                k = r.random()
                if k < 0.6:
                    add(t, False)
                elif k < 0.85:
                    add("Vec<%s>" % t, False)
                else:
                    add(t, True)
        if skipt:
            add("T", True)
        for c in cparams:
            add("[f32; %s]" % c, True)
        if lts:
            add("std::marker::PhantomData<&'a u8>", True)
        r.shuffle(fields)
        # every declared parameter must be used
        used = " ".join(f[1] for f in fields)
        if "'dev" not in used:
            add("std::marker::PhantomData<&'dev ()>", True)
        for t in tparams:
            if t not in used:
                add(t, False)
        decl, args, where = [], [], []
        order = [("t", t) for t in tparams] + ([("s", "T")] if skipt else []) + [("c", c) for c in cparams]
        if r.random() < 0.4:
            r.shuffle(order)
        inline = r.random() < 0.5
        for k, n in order:
            if k == "t":
                if inline:
                    decl.append("%s: Model<'dev>" % n)
                else:
                    decl.append(n)
                    where.append("%s: Model<'dev>" % n)
            elif k == "s":
                decl.append(n)
            else:
                decl.append("const %s: usize" % n)
        lt = ["'dev"] + (["'a: 'dev"] if lts and r.random() < 0.3 else lts)
        w = (" where " + ", ".join(where) + ("," if r.random() < 0.5 else "")) if where else ""
        pub = r.choice(["", "pub "])
        doc = "/// A model.\n" if r.random() < 0.3 else ""
        # attributes of another derive macro on the fields
        foreign = r.random() < 0.3
        d1, d2 = r.choice([("Model", ", serde::Serialize"), ("serde::Serialize", ", Model")]) if foreign else ("Model", "")
        if foreign:
            d2 += ')]\n#[serde(bound = ""'
        out.append("%s#[derive(" % doc + d1 + d2 + ")]\n#[allow(dead_code)]\n%sstruct %s<%s>%s {" % (pub, name, ", ".join(lt + decl), w))
        for n, t, skip in fields:
            pre = r.choice(["", "", "/// documented\n    ", "#[allow(unused)]\n    "])
            post = r.choice(["", "", "#[allow(dead_code)]\n    "])
            if foreign:
                f = r.choice(["#[serde(skip)]", "#[serde(skip_serializing)]", "#[serde(skip, default)]", '#[serde(skip, rename = "skip")]', "#[cfg_attr(all(), serde(skip))]", "#[allow(unused)]\n    #[serde(skip)]"]) + "\n    "
                if r.random() < 0.5:
                    pre += f
                else:
                    post = f + post
            if skip:
                pre += r.choice(["#[parameter(skip)]", "#[parameter(skip)]", "#[parameter(skip)]", "#[parameter(skip,)]", "#[cfg_attr(all(), parameter(skip))]", '#[parameter(rename = "b", skip)]', "#[parameter(buffer, skip)]", "#[parameter(skip, buffer)]", "#[parameter(buffer)]\n    #[parameter(skip)]", '#[parameter(skip)]\n    #[parameter(buffer, note = "keep")]']) + "\n    "
            elif r.random() < 0.1:
                # a mark that does not say skip
                pre += r.choice(["#[parameter]", "#[parameter(buffer)]", '#[parameter(rename = "skip")]', "#[parameter()]", "#[parameter(skip_none)]", "#[parameter(no_skip)]", "#[parameter(skippable, buffer)]", '#[parameter = "skip"]']) + "\n    "
            out.append("    %s%s%s%s: %s," % (pre, post, r.choice(["", "pub ", "pub(crate) "]), n, t))
        out.append("}")
        # the independent description
        st = lambda t: t.replace("'dev", "'static").replace("'a", "'static")
        impl_decl = []
        for k, n in order:
            impl_decl.append("%s: Model<'static> + Tree" % n if k == "t" else "%s: Tree" % n if k == "s" else "const %s: usize" % n)
        names = [n for _, n in order]
        self_ty = "%s<%s>" % (name, ", ".join(["'static"] * len(lt) + names))
        out.append("impl%s Tree for %s {" % ("<%s>" % ", ".join(impl_decl) if impl_decl else "", self_ty))
        out.append("    fn build(c: &mut Ctx) -> Self {")
        out.append("        c.depth += 1;")
        shuffled = [(k, f) for k, f in enumerate(fields)]
        r.shuffle(shuffled)
        for k, (n, t, skip) in shuffled:
            out.append("        let v%d = <%s as Tree>::build(c);" % (k, st(t)))
        out.append("        c.depth -= 1;")
        out.append("        %s { %s }" % (name, ", ".join("%s: v%d" % (f[0], k) for k, f in enumerate(fields))))
        out.append("    }")
        out.append("    fn all(&mut self, inc: bool, out: &mut Vec<(bool, *mut Parameter<'static>)>) {")
        for n, t, skip in fields:
            out.append("        <%s as Tree>::all(&mut self.%s, %s, out);" % (st(t), n, "false" if skip else "inc"))
        out.append("    }\n}")
        # concrete types
        insts = 1 if not order else 2
        for _ in range(insts):
            a = []
            for k, n in order:
                a.append(bound() if k == "t" else r.choice(["f32", "String", "Parameter<'dev>", "u32"]) if k == "s" else str(r.randint(0, 4)))
            t = "%s<%s>" % (name, ", ".join(["'dev"] + (["'static"] if lts else []) + a))
            if len(t) < 120:
                concrete.append(t)
            runs.append((name, st(t)))
    for t in ["Vec<Parameter<'static>>", "Vec<Vec<Parameter<'static>>>", "Vec<Vec<Vec<Parameter<'static>>>>"]:
        runs.append(("Vec", t))
    for t in r.sample(concrete, min(10, len(concrete))):
        runs.append(("Vec", "Vec<%s>" % t.replace("'dev", "'static")))
    out.append("pub const MODELS: &[(&str, fn(&mut W, &mut Rng, &mut Rep) -> Result<(), String>)] = &[")
    for n, t in runs:
        out.append('    ("%s", check_model::<%s>),' % (t, t))
    out.append("];")
    return "\n".join(out) + "\n"

def prepare(path, seed, tier):
    import os
    os.makedirs(os.path.dirname(path), exist_ok=True)
    text = gen(seed, 90 if tier == "quick" else 250)
    open(path, "w").write(text)

if __name__ == "__main__":
    prepare(sys.argv[1], int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else "quick")
