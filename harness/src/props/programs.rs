//! Client programs of the safe interface, compiled against the library.

use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};

use crate::core::{harness_bug, Ctx, Prop, Res, Src};
use crate::{ensure, sub};

/// The compiled library next to this program: the newest one belongs to the current tree.
fn library() -> &'static (PathBuf, PathBuf) {
  static LIB: OnceLock<(PathBuf, PathBuf)> = OnceLock::new();
  LIB.get_or_init(|| {
    let exe = std::env::current_exe().unwrap_or_else(|e| harness_bug(&format!("own path: {e}")));
    let deps = exe.parent().unwrap_or(Path::new(".")).join("deps");
    let mut best: Option<(std::time::SystemTime, PathBuf)> = None;
    let list = std::fs::read_dir(&deps).unwrap_or_else(|e| harness_bug(&format!("{}: {e}", deps.display())));
    for f in list.flatten() {
      let name = f.file_name().to_string_lossy().to_string();
      if !name.starts_with("librenplex-") || !name.ends_with(".rlib") { continue; }
      let t = f.metadata().and_then(|m| m.modified()).unwrap_or(std::time::UNIX_EPOCH);
      if best.as_ref().map(|b| t > b.0).unwrap_or(true) { best = Some((t, f.path())); }
    }
    match best { Some((_, p)) => (p, deps), None => harness_bug("no compiled library next to the harness") }
  })
}

/// Compiles a program without running it. `Err` holds the first errors of the compiler.
fn compile(text: &str) -> Result<(), String> {
  static N: AtomicU64 = AtomicU64::new(0);
  let (lib, deps) = library();
  let dir = deps.parent().unwrap().join(format!("programs-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
  let bug = |e: std::io::Error| -> ! { harness_bug(&format!("compiling a program: {e}")) };
  std::fs::create_dir_all(&dir).unwrap_or_else(|e| bug(e));
  let src = dir.join("program.rs");
  std::fs::write(&src, text).unwrap_or_else(|e| bug(e));
  let rustc = std::env::var("RUSTC").unwrap_or_else(|_| "rustc".into());
  let out = Command::new(rustc).current_dir(&dir).stdin(Stdio::null())
    .args(["--edition=2021", "--crate-type=bin", "--crate-name=program", "--emit=metadata", "--cap-lints=allow", "--color=never", "-o", "program.rmeta"])
    .arg("-L").arg(format!("dependency={}", deps.display()))
    .arg("--extern").arg(format!("renplex={}", lib.display()))
    .arg("program.rs").output();
  let out = out.unwrap_or_else(|e| bug(e));
  let _ = std::fs::remove_dir_all(&dir);
  match out.status.code() {
    Some(0) => Ok(()),
    Some(1) => {
      let text = String::from_utf8_lossy(&out.stderr).to_string();
      if !text.contains("error") { harness_bug(&format!("the compiler failed without an error: {text}")); }
      Err(text.lines().filter(|l| l.starts_with("error")).take(3).collect::<Vec<_>>().join("; "))
    }
    c => harness_bug(&format!("the compiler ended with {c:?}: {}", String::from_utf8_lossy(&out.stderr)))
  }
}

/// Whether a program without any fault compiles. Where the library refuses even that, nothing can be shared.
fn control(text: &str) -> bool {
  static SEEN: OnceLock<Mutex<HashMap<String, bool>>> = OnceLock::new();
  let seen = SEEN.get_or_init(Default::default);
  if let Some(r) = seen.lock().unwrap().get(text) { return *r; }
  let r = compile(text).is_ok();
  seen.lock().unwrap().insert(text.to_string(), r);
  r
}

/// Something a closure may hold: declaration of `NAME`, a use of it, and whether it may be sent and shared.
struct Capture { name: &'static str, decl: &'static str, uses: &'static str, send: bool, sync: bool }

const fn cap(name: &'static str, decl: &'static str, uses: &'static str, send: bool, sync: bool) -> Capture { Capture { name, decl, uses, send, sync } }

const FREE: [Capture; 12] = [
  cap("number", "let NAME = 3usize;", "n += NAME;", true, true),
  cap("string", "let NAME = String::from(\"abc\");", "n += NAME.len();", true, true),
  cap("values", "let NAME = vec![1usize, 2, 3];", "n += NAME[n % 3];", true, true),
  cap("atomic", "let NAME = AtomicUsize::new(0);", "n += NAME.fetch_add(1, Ordering::SeqCst);", true, true),
  cap("shared atomic", "let NAME = Arc::new(AtomicUsize::new(0));", "n += NAME.fetch_add(1, Ordering::SeqCst);", true, true),
  cap("locked cell", "let NAME = Arc::new(Mutex::new(Cell::new(1usize)));", "n += NAME.lock().unwrap().get();", true, true),
  cap("read lock", "let NAME = RwLock::new(vec![1usize]);", "n += NAME.read().unwrap().len();", true, true),
  cap("sender", "let NAME = channel::<usize>().0;", "let _ = NAME.send(n);", true, true),
  cap("function", "let NAME: fn(usize) -> usize = |x| x + 1;", "n += NAME(n);", true, true),
  cap("shareable closure", "let NAME: Box<dyn Fn() -> usize + Send + Sync> = Box::new(|| 1);", "n += NAME();", true, true),
  cap("once lock", "let NAME = OnceLock::<usize>::new();", "n += *NAME.get_or_init(|| 4);", true, true),
  cap("static text", "let NAME: &'static str = \"abc\";", "n += NAME.len();", true, true)
];

const BOUND: [Capture; 16] = [
  cap("cell", "let NAME = Cell::new(0usize);", "NAME.set(NAME.get() + 1); n += NAME.get();", true, false),
  cap("ref cell", "let NAME = RefCell::new(vec![0usize]);", "NAME.borrow_mut().push(n); n += NAME.borrow().len();", true, false),
  cap("counted", "let NAME = Rc::new(3usize);", "n += *NAME.clone();", false, false),
  cap("counted cell", "let NAME = Rc::new(Cell::new(0usize));", "NAME.set(NAME.get() + 1);", false, false),
  cap("weak", "let NAME = Rc::downgrade(&Rc::new(3usize));", "n += NAME.upgrade().map(|x| *x).unwrap_or(0);", false, false),
  cap("shared cell", "let NAME = Arc::new(Cell::new(0usize));", "NAME.set(NAME.get() + 1);", false, false),
  cap("shared ref cell", "let NAME = Arc::new(RefCell::new(0usize));", "*NAME.borrow_mut() += 1;", false, false),
  cap("receiver", "let NAME = channel::<usize>().1;", "n += NAME.try_recv().unwrap_or(0);", true, false),
  cap("pointer", "let NAME: *const usize = std::ptr::null();", "if NAME.is_null() { n += 1; }", false, false),
  cap("mutable pointer", "let NAME: *mut usize = std::ptr::null_mut();", "if NAME.is_null() { n += 1; }", false, false),
  cap("guard", "let NAME = LOCK.lock().unwrap();", "n += *NAME;", false, true),
  cap("plain closure", "let NAME: Box<dyn Fn() -> usize> = Box::new(|| 1);", "n += NAME();", false, false),
  cap("sendable closure", "let NAME: Box<dyn Fn() -> usize + Send> = Box::new(|| 1);", "n += NAME();", true, false),
  cap("once cell", "let NAME = OnceCell::<usize>::new();", "n += *NAME.get_or_init(|| 4);", true, false),
  cap("marker", "let NAME = PhantomData::<Rc<usize>>;", "let _m: &PhantomData<Rc<usize>> = &NAME;", false, false),
  cap("locked counted", "let NAME = Arc::new(Mutex::new(Rc::new(1usize)));", "n += **NAME.lock().unwrap();", false, false)
];

/// Where the closure ends up: type and expression built from `layer: Reduce<T>`.
const PLACES: [(&str, &str, &str); 9] = [
  ("pooling layer", "Reduce<T>", "layer"),
  ("layer", "CLayer<T>", "layer.wrap()"),
  ("network", "CNetwork<T>", "{ let mut n = CNetwork::new(); n.add_input(layer.wrap()).unwrap(); n }"),
  ("list of layers", "Vec<CLayer<T>>", "vec![layer.wrap()]"),
  ("boxed layer", "Box<CLayer<T>>", "Box::new(layer.wrap())"),
  ("optional network", "Option<CNetwork<T>>", "Some({ let mut n = CNetwork::new(); n.add_input(layer.wrap()).unwrap(); n })"),
  ("layer in a pair", "(usize, CLayer<T>)", "(1, layer.wrap())"),
  ("layer in a structure", "Holder<CLayer<T>>", "Holder { item: layer.wrap() }"),
  ("deeper network", "CNetwork<T>", "{ let mut n = CNetwork::new(); n.add_input(Flatten::init([1, 1], 1).wrap()).unwrap(); let mut m = CNetwork::new(); m.add_input(layer.wrap()).unwrap(); std::mem::swap(&mut n, &mut m); n }")
];

/// How threads come by it: statements over `item`, whether it is sent and whether it is shared.
const WAYS: [(&str, &str, bool, bool); 12] = [
  ("moved into a thread", "let h = thread::spawn(move || { touch(&item); }); h.join().unwrap();", true, false),
  ("moved into a scoped thread", "thread::scope(|s| { s.spawn(move || touch(&item)); });", true, false),
  ("borrowed by a scoped thread", "thread::scope(|s| { s.spawn(|| touch(&item)); s.spawn(|| touch(&item)); });", false, true),
  ("counted by two threads", "let a = Arc::new(item); let b = a.clone(); let h = thread::spawn(move || touch(&*b)); touch(&*a); h.join().unwrap();", true, true),
  ("sent through a channel", "let (tx, rx) = channel(); tx.send(item).unwrap(); let h = thread::spawn(move || touch(&rx.recv().unwrap())); h.join().unwrap();", true, false),
  ("behind a lock", "let a = Arc::new(Mutex::new(item)); let b = a.clone(); let h = thread::spawn(move || touch(&*b.lock().unwrap())); h.join().unwrap(); touch(&*a.lock().unwrap());", true, false),
  ("behind a read lock", "let a = Arc::new(RwLock::new(item)); let b = a.clone(); let h = thread::spawn(move || touch(&*b.read().unwrap())); h.join().unwrap(); touch(&*a.read().unwrap());", true, true),
  ("in a static", "static S: OnceLock<PLACE> = OnceLock::new(); let _ = S.set(item); let h = thread::spawn(|| touch(S.get().unwrap())); touch(S.get().unwrap()); h.join().unwrap();", true, true),
  ("required to be sendable", "fn need<X: Send>(_: &X) {} need(&item);", true, false),
  ("required to be shareable", "fn need<X: Sync>(_: &X) {} need(&item);", false, true),
  ("reference moved into a thread", "let r: &'static PLACE = Box::leak(Box::new(item)); let h = thread::spawn(move || touch(r)); touch(r); h.join().unwrap();", false, true),
  ("taken back from a thread", "let h = thread::spawn(|| build()); touch(&h.join().unwrap());", true, false)
];

const HEAD: &str = "#![forbid(unsafe_code)]
use std::cell::{Cell, OnceCell, RefCell};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::channel;
use std::sync::{Arc, Mutex, OnceLock, RwLock};
use std::thread;
use renplex::cvnn::layer::conv::ConvCLayer;
use renplex::cvnn::layer::dense::DenseCLayer;
use renplex::cvnn::layer::flatten::Flatten;
use renplex::cvnn::layer::reduce::Reduce;
use renplex::cvnn::layer::CLayer;
use renplex::cvnn::network::CNetwork;
use renplex::dataset::Dataset;
use renplex::input::IOType;
use renplex::math::cfloat::{Cf32, Cf64};
use renplex::math::matrix::Matrix;
static LOCK: Mutex<usize> = Mutex::new(1);
struct Holder<X> { item: X }
fn touch<X>(_: &X) {}
";

fn program(t: &str, caps: &[&Capture], place: usize, way: usize) -> String {
  let (mut decl, mut uses) = (String::new(), String::new());
  for (i, c) in caps.iter().enumerate() {
    let name = format!("c{i}");
    decl += &format!("  {}\n", c.decl.replace("NAME", &name));
    uses += &format!("    {}\n", c.uses.replace("NAME", &name));
  }
  let (_, ty, make) = PLACES[place];
  format!("{HEAD}type T = {t};\nfn build() -> {ty} {{\n{decl}  let layer = Reduce::<T>::init(1, [1, 1], Box::new(move |b: &[T]| {{\n    let mut n = 0usize;\n{uses}    b[n % b.len()]\n  }}), Matrix::from_body(vec![T {{ x: 1.0, y: 0.0 }}], [1, 1]));\n  {make}\n}}\nfn main() {{\n  let item = build();\n  {}\n}}\n", WAYS[way].1.replace("PLACE", ty))
}

/// A capture on its own, away from the library.
fn alone(t: &str, c: &Capture) -> String {
  format!("{HEAD}type T = {t};\nfn main() {{\n  {}\n  let f: Box<dyn Fn(&[T]) -> T> = Box::new(move |b: &[T]| {{\n    let mut n = 0usize;\n    {}\n    b[n % b.len()]\n  }});\n  f(&[T {{ x: 1.0, y: 0.0 }}]);\n}}\n", c.decl.replace("NAME", "c0"), c.uses.replace("NAME", "c0"))
}

fn closures(s: &mut Src, ctx: &mut Ctx) -> Res {
  let t = s.pick(&["Cf64", "Cf32"]);
  let (place, way) = (s.u(PLACES.len()), s.u(WAYS.len()));
  let mut caps: Vec<&Capture> = vec![];
  for _ in 0..s.tail(0, 2, 6) { caps.push(&FREE[s.u(FREE.len())]); }
  // most programs hold something that is bound to its thread
  if !s.one_in(8) { let k = s.u(caps.len() + 1); caps.insert(k, &BOUND[s.u(BOUND.len())]); }
  if s.one_in(6) { caps.push(&BOUND[s.u(BOUND.len())]); }
  let (name, _, send, sync) = WAYS[way];
  ctx.desc(|| format!("{t} {} {name}, its closure holding [{}]", PLACES[place].0, caps.iter().map(|c| c.name).collect::<Vec<_>>().join(", ")));
  let racy = (send && caps.iter().any(|c| !c.send)) || (sync && caps.iter().any(|c| !c.sync));
  let text = program(t, &caps, place, way);
  for c in caps.iter() { if !control(&alone(t, c)) { harness_bug(&format!("the capture '{}' does not compile", c.name)); } }
  if !control(&program(t, &[&FREE[0]], place, way)) { ctx.label("refused whatever the closure holds"); return ctx.discard(); }
  if caps.iter().all(|c| c.send && c.sync) {
    ctx.label("nothing bound to a thread");
    if !control(&text) { ctx.label("refused although nothing is bound"); }
    return Ok(());
  }
  let accepted = compile(&text).is_ok();
  ctx.label(if accepted { "accepted" } else { "refused" });
  ctx.label_if(!racy, "no thread gets at what is bound");
  ctx.nt(racy);
  ensure!(!(racy && accepted), "a program with a data race compiles: a {} {name} although its closure holds [{}]\n{text}", PLACES[place].0, caps.iter().map(|c| c.name).collect::<Vec<_>>().join(", "));
  Ok(())
}

/// Element types and what they allow.
const ELEMENTS: [(&str, bool, bool); 11] = [
  ("Cf32", true, true), ("Cf64", true, true), ("f64", true, true), ("Arc<Mutex<Cell<usize>>>", true, true),
  ("*const u8", false, false), ("*mut f64", false, false), ("Rc<usize>", false, false), ("Cell<f64>", true, false),
  ("PhantomData<Rc<u8>>", false, false), ("std::sync::MutexGuard<'static, usize>", false, true), ("&'static Cell<usize>", false, false)
];

const HOLDERS: [&str; 14] = ["CLayer<E>", "CNetwork<E>", "Reduce<E>", "DenseCLayer<E>", "ConvCLayer<E>", "Matrix<E>", "IOType<E>", "Dataset<E, E>", "Dataset<E, f32>", "Dataset<f32, E>",
  "Vec<CLayer<E>>", "Option<CNetwork<E>>", "(Matrix<E>, u8)", "[CLayer<E>; 2]"];

fn elements(s: &mut Src, ctx: &mut Ctx) -> Res {
  let (e, send, sync) = ELEMENTS[s.u(ELEMENTS.len())];
  let h = HOLDERS[s.u(HOLDERS.len())];
  let (bound, allowed) = match s.u(2) { 0 => ("Send", send), _ => ("Sync", sync) };
  let text = format!("{HEAD}type E = {e};\nfn need<X: {bound}>() {{}}\nfn main() {{ need::<{h}>(); }}\n");
  ctx.desc(|| format!("{h} with elements {e} as {bound}"));
  // the type itself exists
  if !control(&format!("{HEAD}type E = {e};\nfn need<X>() {{}}\nfn main() {{ need::<{h}>(); }}\n")) { return ctx.discard(); }
  ctx.nt(!allowed);
  if allowed { ctx.label(if control(&text) { "allowed" } else { "refused although allowed" }); return Ok(()); }
  ensure!(compile(&text).is_err(), "{h} with elements {e} counts as {bound}");
  Ok(())
}

/// A closure may not outlive what it borrows.
fn borrows(s: &mut Src, ctx: &mut Ctx) -> Res {
  let t = s.pick(&["Cf64", "Cf32"]);
  let place = s.u(PLACES.len());
  let (_, ty, make) = PLACES[place];
  let (name, decl, uses) = s.pick(&[("number", "let v = 3usize;", "n += *r;"), ("values", "let v = vec![1usize, 2];", "n += r.len();"), ("string", "let v = String::from(\"a\");", "n += r.len();"), ("boxed number", "let v = Box::new(2usize);", "n += **r;")]);
  let (end, finish) = s.pick(&[("returned", "LAYER"), ("kept in a variable outside", "let keep; { DECL let r = &v; keep = MAKE; } touch(&keep); keep"), ("moved into a thread", "thread::spawn(move || { let item = MAKE; touch(&item); }).join().unwrap(); todo!()")]);
  let layer = format!("{{ let layer = Reduce::<T>::init(1, [1, 1], Box::new(move |b: &[T]| {{ let mut n = 0usize; {uses} b[n % b.len()] }}), Matrix::from_body(vec![T {{ x: 1.0, y: 0.0 }}], [1, 1])); {make} }}");
  let body = |own: bool| {
    let r = if own { "let r = Box::leak(Box::new(v));" } else { "let r = &v;" };
    match end {
      "returned" => format!("{decl} {r} {layer}"),
      "moved into a thread" => format!("{decl} {r} {}", finish.replace("MAKE", &layer)),
      _ => finish.replace("DECL let r = &v;", &format!("{decl} {r}")).replace("MAKE", &layer)
    }
  };
  let text = |own: bool| format!("{HEAD}type T = {t};\nfn build() -> {ty} {{\n  {}\n}}\nfn main() {{ touch(&build()); }}\n", body(own));
  ctx.desc(|| format!("{t} {} {end}, its closure borrowing a {name}", PLACES[place].0));
  ctx.nt(true);
  if !control(&text(true)) { return ctx.discard(); }
  ensure!(compile(&text(false)).is_err(), "a closure outlives the {name} it borrows: {} {end}\n{}", PLACES[place].0, text(false));
  Ok(())
}

pub fn props() -> Vec<Prop> {
  let mut v = Vec::new();
  sub!(v, "closures", closures, 1_200, 20_000);
  sub!(v, "elements", elements, 300, 2_000);
  sub!(v, "borrows", borrows, 150, 1_500);
  vec![Prop { id: "C30", rule: "client programs (closure captures x place of the layer x way it reaches another thread x precision; element type x container x auto trait; borrowed values) compiled against the library; non-trivial: the program would race or dangle, so the compiler has to refuse it; a twin without the fault has to compile", assumptions: &["programs without unsafe code", "the compiler itself is sound"], subs: v }]
}
