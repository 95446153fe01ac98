// P28: scripts: what is decompiled reads back as the compiled nodes say, and damaged nodes are refused.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{definitions::*, map::verif::fix_scenario_tag, tag::{scenario::*, recover::*, bludgeon::*}, primitives::{primitive::*, tag::*}};

fn bit() -> bool { split(any::<u8>() as usize & 1) == 1 }
fn refl<T: ringhopper::primitives::parse::TagData + Sized>(v: Vec<T>) -> Reflexive<T> { Reflexive { items: v } }
const NONE: u32 = u32::MAX;
const SALT: u32 = 0xE373_0000;
fn id(n: u32) -> ID { ok(ID::from_u32_checked(n)).unwrap_or(ID::null()) }
/// Compiled scripts, big endian.
struct Build { nodes: Vec<[u8; 20]>, strings: Vec<u8> }
impl Build {
    fn new() -> Self { Self { nodes: vec![], strings: vec![0] } }
    fn string(&mut self, s: &[u8]) -> u32 { let n = self.strings.len() as u32; self.strings.extend_from_slice(s); self.strings.push(0); n }
    fn node(&mut self, kind: u16, flags: u16, string: u32, data: u32) -> u32 {
        let mut n = [0u8; 20];
        n[..2].copy_from_slice(&[0xE3, 0x73]);
        n[4..6].copy_from_slice(&kind.to_be_bytes());
        n[6..8].copy_from_slice(&flags.to_be_bytes());
        n[8..12].copy_from_slice(&NONE.to_be_bytes());
        n[12..16].copy_from_slice(&string.to_be_bytes());
        n[16..20].copy_from_slice(&data.to_be_bytes());
        self.nodes.push(n);
        SALT | (self.nodes.len() - 1) as u32
    }
    fn next(&mut self, of: u32, n: u32) { self.nodes[of as usize & 0xFFFF][8..12].copy_from_slice(&n.to_be_bytes()) }
    /// The table, with as many more (garbage) nodes as said.
    fn table(&self, garbage: usize) -> Vec<u8> {
        let mut t = vec![0u8; 56];
        t[..11].copy_from_slice(b"script node");
        t[32..34].copy_from_slice(&((self.nodes.len() + garbage) as u16).to_be_bytes());
        t[34..36].copy_from_slice(&20u16.to_be_bytes());
        t[36] = 1;
        t[46..48].copy_from_slice(&(self.nodes.len() as u16).to_be_bytes());
        for n in &self.nodes { t.extend_from_slice(n) }
        t.resize(t.len() + garbage * 20, 0xCA);
        t
    }
    fn put(&self, s: &mut Scenario) { s.script_syntax_data.bytes = self.table(1); s.script_string_data.bytes = self.strings.clone() }
}
/// Between host and map byte order.
fn little(t: &[u8]) -> Vec<u8> {
    let mut v = t.to_vec();
    let mut swap = |at: usize, n: usize| v[at..at + n].reverse();
    for (at, n) in [(32, 2), (34, 2), (40, 4), (46, 2), (48, 2), (50, 2), (52, 4)] { swap(at, n) }
    let mut at = 56;
    while at < t.len() { for (o, n) in [(0, 2), (2, 2), (4, 2), (6, 2), (8, 4), (12, 4), (16, 4)] { swap(at + o, n) } at += 20 }
    v
}
const PRIMITIVE: u16 = 1;
/// An expression and the text of its tokens, each followed by a line feed.
fn expression(b: &mut Build, depth: usize, out: &mut Vec<u8>) -> u32 {
    let kind = len(if depth == 0 { 5 } else { 6 });
    let mut say = |s: &[u8]| { out.extend_from_slice(s); out.push(b'\n') };
    match kind {
        0 => { let (d, s): (u32, &[u8]) = [(0xFFFF_0007, &b"7"[..]), (0x0000_8000, b"-32768"), (0, b"0")][len(2)]; say(s); b.node(7, PRIMITIVE, 0, d) }
        1 => { let (d, s): (u32, &[u8]) = [(0xFFFF_FFFF, &b"-1"[..]), (0x7FFF_FFFF, b"2147483647")][len(1)]; say(s); b.node(8, PRIMITIVE, 0, d) }
        2 => { let (d, s): (u32, &[u8]) = [(0, &b"false"[..]), (1, b"true"), (0x100, b"false")][len(2)]; say(s); b.node(5, PRIMITIVE, 0, d) }
        3 => b.node(4, PRIMITIVE, 0, any()),
        4 => { let k = len(4); let s = [&b"a b"[..], b"", b"tag\\path", b"semi;colon", b"(x)\t"][k]; say(s); let s = b.string(s); b.node(9, PRIMITIVE, s, 0) }
        5 => { say(b"var"); let s = b.string(b"var"); b.node(8, PRIMITIVE | if bit() { 4 } else { 16 }, s, NONE) }
        _ => {
            out.extend_from_slice(b"(\n");
            call(b, depth, b"f", out)
        }
    }
}
/// A call (without the opening parenthesis).
fn call(b: &mut Build, depth: usize, name: &[u8], out: &mut Vec<u8>) -> u32 {
    out.extend_from_slice(name); out.push(b'\n');
    let s = b.string(name);
    let f = b.node(2, PRIMITIVE, s, 0);
    let mut last = f;
    for _ in 0..len(2) { let e = expression(b, depth - 1, out); b.next(last, e); last = e }
    out.extend_from_slice(b")\n");
    b.node(4, 0, 0, f)
}
/// What a compiler makes of source code, the same way.
fn tokens(text: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < text.len() {
        let c = text[i];
        if c == b';' {
            if text.get(i + 1) == Some(&b'*') { i += 2; while i + 1 < text.len() && !(text[i] == b'*' && text[i + 1] == b';') { i += 1 } i += 2 }
            else { while i < text.len() && text[i] != b'\n' { i += 1 } }
            continue
        }
        if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' { i += 1; continue }
        if c == b'(' || c == b')' { out.push(c); out.push(b'\n'); i += 1; continue }
        let quoted = c == b'"';
        if quoted { i += 1 }
        while i < text.len() && if quoted { text[i] != b'"' } else { !matches!(text[i], b' ' | b'\n' | b'\t' | b'\r' | b'(' | b')' | b'"' | b';') } { out.push(text[i]); i += 1 }
        if quoted { i += 1 }
        out.push(b'\n');
    }
    out
}
fn name(s: &str) -> String32 { ok(String32::from_str(s)).unwrap() }
fn global(n: &str, root: u32) -> ScenarioGlobal { ScenarioGlobal { name: name(n), _type: ScenarioScriptValueType::Short, initialization_expression_index: id(root), ..Default::default() } }
fn source(s: &Scenario) -> Option<&[u8]> { if s.source_files.items.len() == 1 { Some(&s.source_files.items[0].source.bytes) } else { None } }
/// A node of a graph: what it leads to; 9: null, 8: out of bounds.
#[derive(Copy, Clone)]
struct Link { next: usize, child: Option<usize> }
fn link(n: usize) -> Link {
    let mut to = || { let k = len(n + 1); if k == n { 8 } else if k == n + 1 { 9 } else { k } };
    let next = to();
    Link { next, child: if bit() { Some(to()) } else { None } }
}
fn point(k: usize) -> u32 { match k { 9 => NONE, 8 => SALT | 0x7000, k => SALT | k as u32 } }
/// If everything reached from here is there and nothing comes back to itself.
fn sound(l: &[Link], at: usize, depth: usize) -> bool {
    if at >= l.len() || depth > l.len() { return false }
    let x = l[at];
    if let Some(c) = x.child { if !sound(l, c, depth + 1) { return false } }
    x.next == 9 || sound(l, x.next, depth + 1)
}
harnesses! {
    /// A global and its expression.
    fn s_global() {
        real_fmt(true);
        let mut b = Build::new();
        let mut want = b"(\nglobal\nshort\ng\n".to_vec();
        let root = expression(&mut b, bound(1, 2), &mut want);
        want.extend_from_slice(b")\n");
        let mut s = Scenario { globals: refl(vec![global("g", root)]), ..Default::default() };
        b.put(&mut s);
        let before = s.script_syntax_data.bytes.clone();
        check!(ok(decompile_scripts(&mut s, "x")).is_some());
        check!(s.script_syntax_data.bytes == before);
        let Some(t) = source(&s) else { check!(false); return };
        check!(tokens(t) == want);
        check!(s.source_files.items[0].name == name("x"));
    }
    /// Scripts of every type; a begin around the body goes, nothing else does.
    fn s_script() {
        real_fmt(true);
        let mut b = Build::new();
        let mut want = Vec::new();
        let mut roots = vec![];
        let mut names = vec![];
        for k in 0..1 + len(1) {
            let kind = if k == 0 { len(4) } else { 3 };
            let kind = [ScenarioScriptType::Startup, ScenarioScriptType::Dormant, ScenarioScriptType::Continuous, ScenarioScriptType::Static, ScenarioScriptType::Stub][kind];
            want.extend_from_slice(b"(\nscript\n");
            want.extend_from_slice(match kind { ScenarioScriptType::Startup => b"startup\n", ScenarioScriptType::Dormant => b"dormant\n", ScenarioScriptType::Continuous => b"continuous\n", ScenarioScriptType::Static => b"static\nshort\n", _ => b"stub\nshort\n" });
            let parameters = if k == 0 { [0, 2][len(1)] } else { 0 };
            if parameters > 0 { want.extend_from_slice(b"(\n") }
            want.extend_from_slice(if k == 0 { b"s\n" } else { b"t\n" });
            for _ in 0..parameters { want.extend_from_slice(b"(\nreal\np\n)\n") }
            if parameters > 0 { want.extend_from_slice(b")\n") }
            let begin = k == 0 && bit();
            let e = if begin {
                let mut inner = Vec::new();
                let e = call(&mut b, 1, b"begin", &mut inner);
                want.extend_from_slice(&inner[6..inner.len() - 2]);
                e
            } else if k == 0 { want.extend_from_slice(b"(\n"); call(&mut b, 1, b"f", &mut want) } else { want.extend_from_slice(b"var\n"); let s = b.string(b"var"); b.node(8, PRIMITIVE | 4, s, 0) };
            want.extend_from_slice(b")\n");
            roots.push(e);
            names.push((kind, parameters));
        }
        let mut s = Scenario { scripts: refl((0..roots.len()).map(|i| ScenarioScript { name: name(if i == 0 { "s" } else { "t" }), script_type: names[i].0, return_type: ScenarioScriptValueType::Short, root_expression_index: id(roots[i]),
            parameters: refl((0..names[i].1).map(|_| ScenarioScriptParameter { name: name("p"), return_type: ScenarioScriptValueType::Real }).collect()), ..Default::default() }).collect()), ..Default::default() };
        b.put(&mut s);
        check!(ok(decompile_scripts(&mut s, "x")).is_some());
        let Some(t) = source(&s) else { check!(false); return };
        check!(tokens(t) == want);
    }
    /// Calls of any length and depth: on one line or several.
    fn s_layout() {
        real_fmt(true);
        let (args, depth) = (len(bound(26, 40)), 1 + len(bound(3, 6)));
        let (at, after) = (len(1), len(1));
        let mut b = Build::new();
        let mut want = Vec::new();
        fn nest(b: &mut Build, d: usize, args: usize, at: usize, after: usize, out: &mut Vec<u8>) -> u32 {
            out.extend_from_slice(b"(\nf\n");
            let s = b.string(b"f");
            let f = b.node(2, PRIMITIVE, s, 0);
            let mut last = f;
            for i in 0..args + after + 1 {
                let e = if i == args * at { if d > 1 { nest(b, d - 1, args, at, after, out) } else { out.extend_from_slice(b"1\n"); b.node(7, PRIMITIVE, 0, 1) } }
                    else if d > 2 { continue } else { out.extend_from_slice(b"2\n"); b.node(7, PRIMITIVE, 0, 2) };
                b.next(last, e); last = e;
            }
            out.extend_from_slice(b")\n");
            b.node(4, 0, 0, f)
        }
        let is_global = bit();
        want.extend_from_slice(if is_global { b"(\nglobal\nshort\ng\n" } else { b"(\nscript\nstatic\nshort\ng\n" });
        let root = nest(&mut b, depth, args, at, after, &mut want);
        want.extend_from_slice(b")\n");
        let mut s = Scenario::default();
        if is_global { s.globals.items.push(global("g", root)) } else { s.scripts.items.push(ScenarioScript { name: name("g"), script_type: ScenarioScriptType::Static, return_type: ScenarioScriptValueType::Short, root_expression_index: id(root), ..Default::default() }) }
        b.put(&mut s);
        check!(ok(decompile_scripts(&mut s, "x")).is_some());
        let Some(t) = source(&s) else { check!(false); return };
        check!(tokens(t) == want);
    }
    /// Strings with any byte of ASCII in them.
    fn s_string() {
        real_fmt(true);
        let n = len(bound(2, 3));
        let mut v = vec![];
        for _ in 0..n { let c: u8 = any(); assume(c > 0 && c < 0x80 && c != b'"'); v.push(c) }
        let mut b = Build::new();
        let at = b.string(&v);
        let root = b.node(9, PRIMITIVE, at, 0);
        let mut s = Scenario { globals: refl(vec![global("g", root)]), ..Default::default() };
        b.put(&mut s);
        check!(ok(decompile_scripts(&mut s, "x")).is_some());
        let Some(t) = source(&s) else { check!(false); return };
        let mut want = b"(\nglobal\nshort\ng\n".to_vec();
        want.extend_from_slice(&v);
        want.extend_from_slice(b"\n)\n");
        check!(tokens(t) == want);
    }
    /// Nodes that lead nowhere or around in circles are refused.
    fn s_graph() {
        let n = bound(2, 3);
        let mut l = vec![];
        for _ in 0..n { l.push(link(n)) }
        let mut b = Build::new();
        let text = b.string(b"x");
        for x in &l { let k = b.node(9, if x.child.is_some() { 0 } else { PRIMITIVE }, text, x.child.map_or(0, point)); b.next(k, point(x.next)) }
        let root = if n > 2 { SALT } else { point([0, 1, 8, 9][len(3)]) };
        let is_global = bit();
        let mut s = Scenario::default();
        if is_global { s.globals.items.push(global("g", root)) } else { s.scripts.items.push(ScenarioScript { name: name("g"), root_expression_index: id(root), ..Default::default() }) }
        b.put(&mut s);
        let good = sound(&l, if root == NONE { 9 } else { root as usize & 0xFFFF }, 0);
        cover!(0, good); cover!(1, !good);
        check!(ok(decompile_scripts(&mut s, "x")).is_some() == good);
        check!(s.source_files.items.len() == good as usize);
    }
    /// Names used twice, scenario names that are too long, and strings that are not there.
    fn s_names() {
        real_fmt(true);
        let mut b = Build::new();
        b.string(b"abc");
        let at: u32 = any();
        let root = b.node(9, PRIMITIVE, at, 0);
        let mut s = Scenario::default();
        let mut t = String::new();
        let n = [1, 30, 31, 32, 40][len(4)];
        for _ in 0..n { t.push('n') }
        let (twice, scripts) = (bit(), bit());
        for i in 0..2 {
            let x = if i == 1 && !twice { "h" } else { "g" };
            if scripts { s.scripts.items.push(ScenarioScript { name: name(x), root_expression_index: id(root), ..Default::default() }) } else { s.globals.items.push(global(x, root)) }
        }
        if bit() { s.scripts.items.push(ScenarioScript { name: name("i"), root_expression_index: id(root), ..Default::default() }) }
        b.put(&mut s);
        if bit() { s.script_string_data.bytes.pop(); }
        let data = s.script_string_data.bytes.clone();
        let terminated = (at as usize) < data.len() && (at == 0 || *data.last().unwrap() == 0);
        let good = !twice && n < 32 && terminated;
        check!(ok(decompile_scripts(&mut s, &t)).is_some() == good);
        if good { check!(s.source_files.items[0].name == name(&t)) }
    }
    /// The node table of a map: refused if it is inconsistent, and turned around otherwise.
    fn s_table() {
        let mut b = Build::new();
        let root = b.node(any(), PRIMITIVE, 0, any());
        b.node(any(), any(), any(), any());
        let mut t = b.table(1);
        t[0] = any();
        let (max, element, size): (u16, u16, u16) = (any(), any(), any());
        t[32..34].copy_from_slice(&max.to_be_bytes());
        t[34..36].copy_from_slice(&element.to_be_bytes());
        t[46..48].copy_from_slice(&size.to_be_bytes());
        let cut = [0, 1, 20, 61, 116][len(4)];
        t.truncate(t.len() - cut);
        let mut s = Scenario::default();
        s.script_string_data.bytes = vec![0];
        assume(t.is_empty() || (t[0] > 0 && t[0] < 0x80));
        s.script_syntax_data.bytes = if t.len() == 116 || t.len() == 96 || t.len() == 56 { little(&t) } else { let mut x = t.clone(); if t.len() >= 56 { x[32..34].reverse(); x[34..36].reverse(); x[46..48].reverse() } x };
        let _ = root;
        let good = t.len() >= 56 && element == 20 && size <= max && 56 + max as usize * 20 == t.len();
        cover!(0, good); cover!(1, !good);
        check!(ok(fix_scenario_tag(&mut s, "x")).is_some() == good);
        if !good { return }
        let r = &s.script_syntax_data.bytes;
        check!(r.len() == t.len());
        let size = split(size as usize);
        // Types out of range become the first, unknown flags go
        for i in 0..t.len() {
            let node = i >= 56;
            let o = (i + 4) % 20;
            if node && i >= 56 + size * 20 { check!(r[i] == 0) }
            else if node && (o == 4 || o == 5) { let a = i - (o - 4); let k = u16::from_be_bytes([t[a], t[a + 1]]); check!(u16::from_be_bytes([r[a], r[a + 1]]) == if k < 49 { k } else { 0 }) }
            else if node && o == 6 { check!(r[i] == 0) }
            else if node && o == 7 { check!(r[i] == t[i] & 0x1F) }
            else if !node && i < 32 { check!(r[i] == t[i]) }
            else { check!(r[i] == t[i]) }
        }
    }
    /// Repair: scripts are decompiled only if there is no source.
    fn s_repair() {
        real_fmt(true);
        let mut b = Build::new();
        let broken = bit();
        let root = b.node(7, PRIMITIVE, 0, 5);
        let (globals, sources) = (len(1), len(1));
        let mut s = Scenario::default();
        for _ in 0..globals { s.globals.items.push(global("g", if broken { NONE } else { root })) }
        for _ in 0..sources { s.source_files.items.push(ScenarioSourceFile { name: name("old"), source: Data::new(b"old".to_vec()) }) }
        b.put(&mut s);
        let before = s.clone();
        let p = ok(TagPath::new("levels\\b30\\b30", TagGroup::Scenario)).unwrap();
        let done = matches!(bludgeon_tag(&mut s, &p), BludgeonResult::Done);
        check!(done == !(broken && globals == 1 && sources == 0));
        if sources == 1 || globals == 0 || broken { check!(s == before) } else { check!(s.source_files.items.len() == 1 && s.source_files.items[0].name == name("b30") && tokens(source(&s).unwrap()) == b"(\nglobal\nshort\ng\n5\n)\n") }
    }
    /// Recovering source files: each in a file of its name, up to the first null, and nowhere else.
    fn s_recover() {
        real_fmt(true);
        let n = len(2);
        let mut s = Scenario::default();
        let mut names = vec![];
        for i in 0..n {
            let mut x = vec![b'a'; 2];
            if i == 0 { if n == 1 { let c: u8 = any(); assume(c > 32 && c < 127); x[len(1)] = split(c as usize) as u8 } else { x = [&b"ok"[..], b"a:"][len(1)].to_vec() } }
            else { x = [&b"global_scripts"[..], b"..\\x", b"ok"][len(2)].to_vec() }
            let t = std::str::from_utf8(&x).unwrap();
            let d = if i == 0 { vec![b'x', any(), b'y'] } else { b"z".to_vec() };
            s.source_files.items.push(ScenarioSourceFile { name: name(t), source: Data::new(d) });
            names.push(x);
        }
        let p = ok(TagPath::new("l\\b\\b", TagGroup::Scenario)).unwrap();
        let Some(f) = get_recover_function(TagGroup::Scenario) else { check!(false); return };
        let data: Vec<Vec<u8>> = s.source_files.items.iter().map(|f| f.source.bytes.clone()).collect();
        let s: Box<dyn PrimaryTagStructDyn> = Box::new(s);
        let r = ok(f(&p, &s));
        let leads = names.iter().any(|n| n.iter().any(|c| *c == b'/' || *c == b'\\' || *c == b':'));
        let twice = n == 2 && names[0] == names[1];
        check!(r.is_some() == !(leads || twice));
        let Some(r) = r else { return };
        check!(r.is_some() == (n > 0));
        let Some(r) = r else { return };
        check!(r.len() == n);
        for (p, d) in &r {
            let p = p.to_str().unwrap().as_bytes();
            let k = (0..n).find(|k| { let mut w = if names[*k] == b"global_scripts" { vec![] } else { b"l/b/scripts/".to_vec() }; w.extend_from_slice(&names[*k]); w.extend_from_slice(b".hsc"); w == p });
            check!(k.is_some());
            let Some(k) = k else { return };
            let end = data[k].iter().position(|c| *c == 0).unwrap_or(data[k].len());
            check!(d[..] == data[k][..end]);
        }
    }
}
kani_harnesses! {}
