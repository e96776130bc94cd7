"""Turns declarations (token sequences from the specification) into a program
of several crates, compiles it against /repo, and records which declarations
the compiler rejected and what the program lists at run time."""
import json, os, random, re, shutil, subprocess, fcntl
from vlib import TARGET, VERIF, ToolError, Violation, cargo_env

WORK = os.path.join(TARGET, "decl")

FMT = {"fa": ["crate::fa", "crate::fmts::fa", "|e, f| crate::fa(e, f)", "{ crate::fa }"],
       "fb": ["crate::fb", "crate::fmts::fb", "|_, _| String::from(\"fb\")", "(crate::fb)"]}

KIT = r'''
#![allow(warnings)]
pub use metriken;
pub use metriken::{Metric, Value, MetricEntry, Format, Counter, Gauge, LazyCounter, LazyGauge, Lazy, AtomicHistogram, RwLockHistogram, metric};
use std::any::Any;
pub struct Tagged(pub u32, pub u64);
impl Metric for Tagged {
    fn as_any(&self) -> Option<&dyn Any> { Some(self) }
    fn value(&self) -> Option<Value<'_>> { Some(Value::Other(self)) }
}
pub mod fmts {
    pub fn fa(_: &metriken::MetricEntry, _: metriken::Format) -> String { "fa".into() }
    pub fn fb(_: &metriken::MetricEntry, _: metriken::Format) -> String { "fb".into() }
}
pub type Probe = fn() -> (u32, Option<&'static dyn Metric>);
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if (' '..='~').contains(&c) && c != '\\' { o.push(c) } else { o.push_str(&format!("\\u{{{:x}}}", c as u32)) }
    }
    o
}
#[macro_export]
macro_rules! in_lib_macro { ($n:ident, $t:ty, $e:expr; $($args:tt)*) => { #[$crate::metric($($args)*)] pub static $n: $t = $e; } }
#[macro_export]
macro_rules! in_lib_macro_plain { ($n:ident, $t:ty, $e:expr) => { #[$crate::metriken::metric(crate = $crate::metriken)] pub static $n: $t = $e; } }
'''

MAIN = r'''
fn main() {
    use kit::{Metric, Value, Tagged, esc};
    let probes: Vec<(u32, Option<&'static dyn Metric>)> = probes().into_iter().map(|p| p()).collect();
    let metrics = kit::metriken::metrics();
    let mut out = Vec::new();
    for e in metrics.static_metrics() {
        let is: Vec<u32> = probes.iter().filter(|(_, m)| m.map_or(false, |m| e.is(m))).map(|p| p.0).collect();
        let same: Vec<u32> = probes.iter().filter(|(_, m)| m.map_or(false, |m| match (e.as_any(), m.as_any()) {
            (Some(a), Some(b)) => a as *const _ as *const () == b as *const _ as *const (), _ => false })).map(|p| p.0).collect();
        let mut tag = Vec::new();
        match e.value() {
            Some(Value::Counter(v)) if v > 0 => tag.push(v as u32),
            Some(Value::Gauge(v)) if v != 0 => tag.push((-v) as u32),
            Some(Value::Other(a)) => if let Some(t) = a.downcast_ref::<Tagged>() { tag.push(t.0) },
            _ => {}
        }
        let key = is.first().or(tag.first()).copied().unwrap_or(999_999);
        // if both kinds of evidence exist they have to agree
        let is = if same.is_empty() || same == is { is } else { vec![888_888] };
        let q = |s: &str| serde_json::Value::String(esc(s));
        out.push(serde_json::json!({
            "id": key, "is": is, "tag": tag, "name": q(e.name()), "desc": e.description().map(|d| vec![q(d)]).unwrap_or_default(),
            "meta": e.metadata().iter().map(|(k, v)| vec![q(k), q(v)]).collect::<Vec<_>>(),
            "text": q(&e.formatted(kit::Format::Simple)),
        }));
    }
    println!("{}", serde_json::json!({"e": "listing", "entries": out}));
}
'''


def esc(s):
    return "".join(c if " " <= c <= "~" and c != "\\" else "\\u{%x}" % ord(c) for c in s)


def lit(rnd, s):
    if rnd.random() < 0.3 and all(c.isprintable() for c in s):
        n = 1
        while '"' + "#" * n in s:
            n += 1
        return "r" + "#" * n + '"' + s + '"' + "#" * n
    keep = rnd.random() < 0.5
    return '"' + "".join(
        "\\\\" if c == "\\" else '\\"' if c == '"' else c if c == " " or c.isprintable() and (keep or c < "\x7f")
        else "\\u{%x}" % ord(c) for c in s) + '"'


TYPES = {"Counter": ("kit::Counter", "kit::Counter::new()", "{x}.set({id});", True),
         "Gauge": ("kit::Gauge", "kit::Gauge::new()", "{x}.set(-{id});", True),
         "LazyCounter": ("kit::LazyCounter", "kit::LazyCounter::new(kit::Counter::new)", "{x}.set({id});", True),
         "LazyGauge": ("kit::LazyGauge", "kit::LazyGauge::new(kit::Gauge::new)", "{x}.set(-{id});", True),
         "Tagged": ("kit::Tagged", "kit::Tagged({id}, 0)", "", True),
         "LazyTagged": ("kit::Lazy<kit::Tagged>", "kit::Lazy::new(|| kit::Tagged({id}, 7))", "kit::Lazy::force(&{x});", True),
         "AtomicHistogram": ("kit::AtomicHistogram", "kit::AtomicHistogram::new(3, 20)", "{x}.increment(1);", False),
         "RwLockHistogram": ("kit::RwLockHistogram", "kit::RwLockHistogram::new(3, 20)", "", False)}

IDENTS = ["M", "COUNTER_A", "lower", "_X", "X1", "METRIC", "METRICS", "Entry", "NAME", "metric", "metriken", "a", "naïve", "ΔX", "名前"]
UNPROBED = {"deadfn", "constblock", "generic", "deadtrait", "deadclosure"}
POS = ["item", "item", "nested", "fnbody", "closure", "method", "macro", "macrott", "macroexpr", "attrs", "pubin", "path",
       "deadfn", "constblock", "generic", "deadtrait", "deadclosure"]
OUTER = ["lib", "renamed", "facade", "libmacro", "libmacroplain"]
NOTSTATIC = {"const": "pub const {x}: {t} = {e};", "fn": "pub fn {x}() {{ }}", "struct": "pub struct {x};",
             "nonmetric": "pub static {x}: u32 = 1;", "let": "pub mod {x} {{ }}", "use": "pub use kit::Counter as {x};",
             "impl": "impl kit::Probe_ {{ }}"}
del NOTSTATIC["impl"]


class Decl:
    def __init__(self, rnd, i, toks, strings):
        self.id, self.toks = i, toks
        self.rnd = rnd
        self.s = strings
        self.ident = rnd.choice(IDENTS)
        self.ty = rnd.choice(list(TYPES))
        self.pos = rnd.choice(POS)
        self.item = "static"
        self.crate = "main"
        self.consts = []

    @property
    def probed(self):
        return self.pos not in UNPROBED and self.item == "static"

    @property
    def tagged(self):
        return TYPES[self.ty][3]

    def event(self, ok):
        sub = lambda t: dict(t=t["t"], s=esc(self.s.get(t["s"], t["s"])) if t["t"] in ("lit", "sexpr", "id") else t["s"])
        return dict(e="decl", id=self.id, ident=esc(self.ident), item=self.item, toks=[sub(t) for t in self.toks],
                    probed=self.probed, tagged=self.tagged, ok=ok, ty=self.ty, pos=self.pos, crate=self.crate)

    def render(self):
        """(arguments, source of the module body)"""
        r = self.rnd
        plain = self.pos in ("libmacro", "macroexpr")
        args = []
        exprs = []
        path = {"main": ["metriken", "kit::metriken", "crate::alias", "crate::alias::inner"], "lib": ["metriken", "kit::metriken"],
                "renamed": ["other_name", "kit::metriken"], "facade": ["kit::metriken", "crate::alias"]}[self.crate]
        prev = None
        for t in self.toks:
            k, v = t["t"], self.s.get(t["s"], t["s"])
            if k == "lit":
                x = lit(r, v)
                if self.pos == "macroexpr" and prev in ("name=", "description="):
                    exprs.append(x)
                    x = f"$e{len(exprs)}"
            elif k == "sexpr":
                c = r.randrange(1 if plain else 4)
                if c == 0:
                    h = r.randrange(len(v) + 1)
                    x = f"concat!({lit(r, v[:h])}, {lit(r, v[h:])})"
                elif c == 1:
                    self.consts.append(f"const S{len(self.consts)}: &str = {lit(r, v)};")
                    x = f"self::S{len(self.consts) - 1}"
                elif c == 2:
                    x = "{ " + lit(r, v) + " }"
                else:
                    x = f"if true {{ {lit(r, v)} }} else {{ \"no\" }}"
            elif k == "id":
                x = v
            elif k == "kw":
                x = "crate"
            elif k == "fmt":
                x = r.choice(FMT[v] if not plain else ["crate::" + v])
            elif k == "path":
                x = r.choice(path) if v == "ok" else r.choice(["nowhere", "crate::nowhere", "kit::nowhere", "std"])
            else:
                x = dict(eq="=", comma=",", open="{", close="}")[k]
            if k == "eq" and prev in ("name", "description"):
                prev += "="
            else:
                prev = x
            args.append(x)
        attr = " ".join(args)
        t, e, touch, _ = TYPES[self.ty]
        e = e.replace("{id}", str(self.id))
        x = self.ident
        touch = touch.format(x="{x}", id=self.id)
        at = "metric" if not attr and r.random() < 0.5 else f"metric({attr})"
        at = {"main": "kit::", "lib": "metriken::", "renamed": "other_name::", "facade": "kit::metriken::"}[self.crate] + at
        consts = "\n".join(self.consts)
        vis = r.choice(["pub", "pub(crate)", "pub(super)", ""])
        if self.item in NOTSTATIC:
            return f"{consts}\n#[{at}]\n{NOTSTATIC[self.item].format(x=x, t=t, e=e)}"
        if self.item == "absent":
            two = [f"#[{at}]", "#[cfg(any())]"]
            if r.random() < 0.5:
                two.reverse()
            return f"{consts}\n{two[0]}\n{two[1]}\n{vis} static {x}: {t} = {e};"
        decl = f"#[{at}]\n{vis} static {x}: {t} = {e};"
        inner = f"#[{at}]\nstatic {x}: {t} = {e};"
        see = lambda y: f"{{ {touch.replace('{x}', y)} ({self.id}, Some(&{y} as &'static dyn kit::Metric)) }}"
        sig = "pub fn the() -> (u32, Option<&'static dyn kit::Metric>)"
        none = f"{sig} {{ ({self.id}, None) }}"
        p = self.pos
        if p == "item":
            return f"{consts}\n{decl}\n{sig} {see(x)}"
        if p == "attrs":
            return (f"{consts}\n/// Documented: {{ }} \"quoted\"\n#[allow(dead_code)]\n#[{at}]\n#[cfg(all())]\n#[doc(hidden)]\n"
                    f"{vis} static {x}: {t} = {e};\n{sig} {see(x)}")
        if p == "pubin":
            return f"{consts}\n#[{at}]\npub(in crate) static {x}: {t} = {{ const Z: {t} = {e}; Z }};\n{sig} {see(x)}" \
                if self.ty in ("Counter", "Gauge", "Tagged") else f"{consts}\n{decl}\n{sig} {see(x)}"
        if p == "path":     # the attribute under another name
            return f"{consts}\nuse kit::metric as renamed_attribute;\n#[renamed_attribute({attr})]\n{vis} static {x}: {t} = {e};\n{sig} {see(x)}"
        if p == "nested":
            return f"pub mod a {{ pub mod b {{ {consts}\n{decl}\n{sig} {see(x)} }} }}\npub use a::b::the;"
        if p == "fnbody":
            return f"{consts}\n{sig} {{ {inner}\n {see(x)} }}"
        if p == "closure":
            return f"{consts}\n{sig} {{ let f = || {{ {inner}\n {see(x)} }}; f() }}"
        if p == "method":
            return (f"{consts}\nstruct S; trait T {{ fn go(&self) -> (u32, Option<&'static dyn kit::Metric>); }}\n"
                    f"impl T for S {{ fn go(&self) -> (u32, Option<&'static dyn kit::Metric>) {{ {inner}\n {see(x)} }} }}\n{sig} {{ S.go() }}")
        if p == "macro":
            return f"{consts}\nmacro_rules! mk {{ () => {{ {inner}\n{sig} {see(x)} }} }}\nmk!();"
        if p == "macrott":
            return (f"{consts}\nmacro_rules! mk {{ ($n:ident; $($a:tt)*) => {{ #[kit::metric($($a)*)] static $n: {t} = {e};\n"
                    f"{sig} {see('$n')} }} }}\nmk!({x}; {attr});")
        if p == "macroexpr":
            ps = ", ".join(f"$e{i + 1}:expr" for i in range(len(exprs)))
            return (f"{consts}\nmacro_rules! mk {{ ($n:ident, {ps}) => {{ #[kit::metric({attr})] static $n: {t} = {e};\n"
                    f"{sig} {see('$n')} }} }}\nmk!({x}, {', '.join(exprs)});" if exprs else f"{consts}\n{decl}\n{sig} {see(x)}")
        if p == "libmacro":
            return f"{consts}\nkit::in_lib_macro!({x}, {t}, {e}; {attr});\n{sig} {see(x)}"
        if p == "libmacroplain":
            return f"kit::in_lib_macro_plain!({x}, {t}, {e});\n{sig} {see(x)}"
        if p == "deadfn":
            return f"{consts}\nfn never() {{ {inner} }}\n{none}"
        if p == "constblock":
            return f"{consts}\nconst _: () = {{ {inner} }};\n{none}"
        if p == "generic":
            return f"{consts}\nfn never<T: Copy>(_: T) -> T {{ {inner}\n loop {{}} }}\n{none}"
        if p == "deadtrait":
            return f"{consts}\ntrait Never {{ fn go(&self) {{ {inner} }} }}\n{none}"
        if p == "deadclosure":
            return f"{consts}\nfn never() {{ let _ = || {{ {inner} }}; }}\n{none}"
        raise ToolError(p)


PRE = {"main": "#![allow(warnings)]\npub use kit::fmts; pub use kit::fmts::{fa, fb}; pub mod alias { pub use kit::metriken::*; pub mod inner { pub use kit::metriken::*; } }\n",
       "lib": "#![allow(warnings)]\npub use kit::fmts; pub use kit::fmts::{fa, fb};\n",
       "renamed": "#![allow(warnings)]\npub use kit::fmts; pub use kit::fmts::{fa, fb};\n",
       "facade": "#![allow(warnings)]\npub use kit::fmts; pub use kit::fmts::{fa, fb}; pub mod alias { pub use kit::metriken::*; }\n"}
NAMES = {"main": "src/main.rs", "lib": "lib/lib.rs", "renamed": "renamed/lib.rs", "facade": "facade/lib.rs"}
REPO = '{ path = "/repo/metriken" }'
TOML = '[package]\nname = "{n}"\nversion = "0.1.0"\nedition = "2021"\npublish = false\n\n[lib]\npath = "lib.rs"\n\n[dependencies]\n{d}\n'


def layout():
    shutil.rmtree(WORK, ignore_errors=True)
    for d in ("src", "kit", "lib", "renamed", "facade"):
        os.makedirs(os.path.join(WORK, d))
    w = lambda p, s: open(os.path.join(WORK, p), "w").write(s)
    w("kit/Cargo.toml", TOML.format(n="kit", d=f"metriken = {REPO}"))
    w("kit/lib.rs", KIT)
    w("lib/Cargo.toml", TOML.format(n="declib", d=f'metriken = {REPO}\nkit = {{ path = "../kit" }}'))
    w("renamed/Cargo.toml", TOML.format(n="decrenamed", d='other_name = { path = "/repo/metriken", package = "metriken" }\nkit = { path = "../kit" }'))
    w("facade/Cargo.toml", TOML.format(n="decfacade", d='kit = { path = "../kit" }'))
    w("Cargo.toml", '[package]\nname = "decl"\nversion = "0.1.0"\nedition = "2021"\npublish = false\n\n[dependencies]\n'
      f'metriken = {REPO}\nkit = {{ path = "kit" }}\ndeclib = {{ path = "lib" }}\ndecrenamed = {{ path = "renamed" }}\n'
      'decfacade = { path = "facade" }\nserde_json = "1"\n\n[profile.dev]\nopt-level = 0\ndebug = false\nincremental = false\n\n'
      '[profile.dev.package."*"]\nopt-level = 1\n\n[workspace]\nmembers = ["kit", "lib", "renamed", "facade"]\n')
    shutil.copy(os.path.join(VERIF, "harness", "decl.lock"), os.path.join(WORK, "Cargo.lock"))


def sources(decls, body, gone):
    """Write the crates without the declarations in gone; returns line ranges."""
    where = {}
    for c, f in NAMES.items():
        text = [PRE[c]]
        line = PRE[c].count("\n") + 1
        mine = [d for d in decls if d.crate == c and d.id not in gone]
        for d in mine:
            s = f"pub mod d{d.id} {{\n{body[d.id]}\n}}\n"
            n = s.count("\n")
            where[d.id] = (f, line, line + n - 1)
            text.append(s)
            line += n
        the = ", ".join(f"d{d.id}::the as kit::Probe" for d in mine if d.item == "static")
        text.append(f"pub fn probes_here() -> Vec<kit::Probe> {{ vec![{the}] }}\n")
        if c == "main":
            text.append("fn probes() -> Vec<kit::Probe> { let mut v = probes_here(); v.extend(declib::probes_here()); "
                        "v.extend(decrenamed::probes_here()); v.extend(decfacade::probes_here()); v }\n" + MAIN)
        open(os.path.join(WORK, f), "w").write("".join(text))
    return where


def spans(msg):
    for s in msg.get("spans", []):
        while s:
            yield s["file_name"], s["line_start"]
            s = (s.get("expansion") or {}).get("span")
    for c in msg.get("children", []):
        yield from spans(c)


def compile_and_run(ctx, decls, label):
    """Compile; take out what the compiler complains about, until it builds."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "decl.lck"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        layout()
        body = {d.id: d.render() for d in decls}
        gone = {}
        for attempt in range(12):
            where = sources(decls, body, gone)
            r = subprocess.run(["cargo", "build", "--offline", "--locked", "--message-format=json"], cwd=WORK, env=cargo_env(),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
            if r.returncode == 0:
                break
            new, odd = {}, []
            for line in r.stdout.splitlines():
                m = json.loads(line)
                if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
                    continue
                if not m["message"]["spans"] and m["message"]["message"].startswith(("aborting due", "could not compile")):
                    continue
                base = os.path.relpath(os.path.dirname(m["target"]["src_path"]), WORK)
                hit = None
                for f, ln in spans(m["message"]):
                    f = os.path.relpath(os.path.join(WORK, f), WORK)
                    hit = next((i for i, (g, a, b) in where.items() if g == f and a <= ln <= b), None)
                    if hit is not None:
                        break
                if hit is None:
                    odd.append(m["message"]["rendered"] or m["message"]["message"])
                else:
                    new.setdefault(hit, m["message"]["message"])
            if not new:
                sources([], {}, {})
                e = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=WORK, env=cargo_env(),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                if e.returncode != 0:
                    raise ToolError("the empty program does not build: " + e.stdout[-3000:])
                raise Violation("declared metrics: a program of declarations that compile one by one does not build",
                                dict(label=label, errors=odd[:5], stderr=r.stderr[-3000:]))
            gone.update(new)
        else:
            raise ToolError("the generated program does not settle")
        exe = os.path.join(TARGET, "debug", "decl")
        out = ctx.path("listing")
        with open(out, "w") as f:
            try:
                p = subprocess.run([exe], stdout=f, stderr=subprocess.PIPE, timeout=120)
            except subprocess.TimeoutExpired:
                raise Violation("declared metrics: the program does not finish", dict(label=label))
        if p.returncode != 0:
            raise Violation(f"declared metrics: the program died (status {p.returncode})", dict(label=label, stderr=p.stderr.decode(errors="replace")[-2000:]))
        listing = json.loads(open(out).read().strip().splitlines()[-1])
        events = [dict(e="new")]
        for d in decls:
            ev = d.event(d.id not in gone)
            if d.id in gone:
                ev["why"] = esc(gone[d.id])[:200]
            ev["src"] = esc(body[d.id])[:600]
            events.append(ev)
        events.append(listing)
        return events
