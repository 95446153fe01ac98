// P34: a cached tag tree always gives the tag last written or opened, and writes it down when asked to.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use ringhopper::{definitions::*, primitives::{primitive::*, error::*, tag::*}, tag::tree::*};
use std::{sync::{Arc, Mutex}};

type Dyn = Box<dyn PrimaryTagStructDyn>;
/// Where the tags really are.
struct Inner { tags: Vec<(TagPath, i8)>, fail: bool, opens: usize }
#[derive(Clone)]
struct Disk(Arc<Mutex<Inner>>);
fn tag(v: i8) -> HUDNumber { let mut w = HUDNumber::default(); w.x_offset = v; w }
fn value(d: &dyn PrimaryTagStructDyn) -> i8 { d.as_any().downcast_ref::<HUDNumber>().unwrap().x_offset }
impl TagTree for Disk {
    fn open_tag_copy(&self, p: &TagPath) -> RinghopperResult<Dyn> {
        let mut i = self.0.lock().unwrap();
        i.opens += 1;
        match i.tags.iter().find(|t| t.0 == *p) { Some(t) => Ok(Box::new(tag(t.1))), None => Err(Error::TagNotFound(p.clone())) }
    }
    fn open_tag_shared(&self, p: &TagPath) -> RinghopperResult<Arc<Mutex<Dyn>>> { self.open_tag_copy(p).map(|t| Arc::new(Mutex::new(t))) }
    fn files_in_path(&self, _: &str) -> Option<Vec<TagTreeItem>> { None }
    fn write_tag(&mut self, p: &TagPath, t: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> {
        let mut i = self.0.lock().unwrap();
        if i.fail { return Err(Error::InvalidTagsDirectory) }
        let v = value(t);
        match i.tags.iter_mut().find(|t| t.0 == *p) { Some(t) => { if t.1 == v { return Ok(false) } t.1 = v }, None => i.tags.push((p.clone(), v)) }
        Ok(true)
    }
    fn is_read_only(&self) -> bool { false }
    fn contains(&self, p: &TagPath) -> bool { self.0.lock().unwrap().tags.iter().any(|t| t.0 == *p) }
    fn root(&self) -> TagTreeItem { unreachable!() }
    fn tree_type(&self) -> TreeType { TreeType::CacheFile }
    fn get_all_tags_with_filter(&self, _: Option<&TagFilter>) -> Vec<TagPath> { self.0.lock().unwrap().tags.iter().map(|t| t.0.clone()).collect() }
}
fn bit() -> bool { split(any::<bool>() as usize) == 1 }
fn path(s: &str) -> TagPath { ok(TagPath::new(s, TagGroup::HUDNumber)).unwrap() }
struct World { disk: Disk, paths: [TagPath; 2], on_disk: [Option<i8>; 2], cached: [Option<i8>; 2], instant: bool }
impl World {
    fn new() -> (World, CachingTagTree<Disk>) {
        let paths = [path("a"), path("b")];
        let v: i8 = any();
        let disk = Disk(Arc::new(Mutex::new(Inner { tags: vec![(paths[0].clone(), v)], fail: false, opens: 0 })));
        let instant = bit();
        let t = CachingTagTree::new(disk.clone(), if instant { CachingTagTreeWriteStrategy::Instant } else { CachingTagTreeWriteStrategy::Manual });
        (World { disk, paths, on_disk: [Some(v), None], cached: [None; 2], instant }, t)
    }
    /// What is in the tags, really.
    fn check(&self) {
        let i = self.disk.0.lock().unwrap();
        for k in 0..2 { check!(i.tags.iter().find(|t| t.0 == self.paths[k]).map(|t| t.1) == self.on_disk[k]) }
    }
    fn open<T: TagTree>(&mut self, t: &T, k: usize, shared: bool, change: bool) {
        let (opens, had) = (self.disk.0.lock().unwrap().opens, self.cached[k].is_some());
        if !had { self.cached[k] = self.on_disk[k] }
        if shared {
            let r = ok(t.open_tag_shared(&self.paths[k]));
            check!(r.is_some() == self.cached[k].is_some());
            let Some(r) = r else { return };
            let mut l = r.lock().unwrap();
            check!(Some(value(l.as_ref())) == self.cached[k]);
            if change { let v: i8 = any(); *l = Box::new(tag(v)); self.cached[k] = Some(v) }
        }
        else {
            let r = ok(t.open_tag_copy(&self.paths[k]));
            check!(r.is_some() == self.cached[k].is_some());
            let Some(mut r) = r else { return };
            check!(Some(value(r.as_ref())) == self.cached[k]);
            if change { r = Box::new(tag(any())); core::mem::drop(r) }
        }
        // Opened at most once
        check!((self.disk.0.lock().unwrap().opens == opens) == had);
    }
    fn write<T: TagTree>(&mut self, t: &mut T, k: usize, fail: bool) {
        let v: i8 = any();
        self.disk.0.lock().unwrap().fail = fail;
        let r = ok(t.write_tag(&self.paths[k], &tag(v)));
        self.disk.0.lock().unwrap().fail = false;
        if self.instant && fail { check!(r.is_none()); return }
        check!(r == Some(true));
        self.cached[k] = Some(v);
        if self.instant { self.on_disk[k] = Some(v) }
    }
    fn sees<T: TagTree>(&self, t: &T) {
        for k in 0..2 { check!(t.contains(&self.paths[k]) == self.on_disk[k].is_some()) }
        check!(t.is_read_only() == !self.instant);
        check!(matches!(t.tree_type(), TreeType::CacheFile));
        check!(t.get_all_tags_with_filter(None).len() == self.on_disk.iter().flatten().count());
    }
}
harnesses! {
    /// Any history of what can be done with a cache.
    fn s_cache() {
        let (mut w, mut t) = World::new();
        for _ in 0..bound(4, 5) {
            let k = len(1);
            match len(6) {
                0 => w.open(&t, k, true, bit()),
                1 => w.open(&t, k, false, bit()),
                2 => w.write(&mut t, k, bit()),
                3 => {
                    let r = t.evict(&w.paths[k]);
                    check!(r.map(|t| value(t.as_ref())) == w.cached[k]);
                    w.cached[k] = None;
                }
                4 => {
                    let fail = bit();
                    w.disk.0.lock().unwrap().fail = fail;
                    let r = ok(t.commit(&w.paths[k]));
                    w.disk.0.lock().unwrap().fail = false;
                    let want = if fail || w.cached[k].is_none() { None } else { Some(w.cached[k] != w.on_disk[k]) };
                    check!(r == want);
                    if want.is_some() { w.on_disk[k] = w.cached[k] }
                }
                5 => {
                    let fail = bit();
                    w.disk.0.lock().unwrap().fail = fail;
                    let r = t.commit_all();
                    w.disk.0.lock().unwrap().fail = false;
                    check!(r.len() == if fail { w.cached.iter().flatten().count() } else { 0 });
                    for i in 0..2 {
                        check!(r.iter().any(|e| e.0 == w.paths[i]) == (fail && w.cached[i].is_some()));
                        if !fail && w.cached[i].is_some() { w.on_disk[i] = w.cached[i] }
                    }
                    std::mem::forget(r);
                }
                _ => { let r = t.get(&w.paths[k]); check!(r.map(|t| value(t.lock().unwrap().as_ref())) == w.cached[k]) }
            }
            w.check();
        }
        w.sees(&t);
    }
    /// The same tree used from several places, and behind pointers.
    fn s_shared() {
        let (mut w, t) = World::new();
        let mut a = AtomicTagTree::new(t);
        let mut b = a.clone();
        for _ in 0..bound(3, 4) {
            let k = len(1);
            let x = if bit() { &mut a } else { &mut b };
            match len(2) { 0 => w.open(x, k, true, bit()), 1 => w.open(x, k, false, bit()), _ => w.write(x, k, bit()) }
            w.check();
        }
        w.sees(&b);
        drop(a);
        let mut t = b.into_inner();
        for k in 0..2 { let c = t.get(&w.paths[k]); check!(c.map(|t| value(t.lock().unwrap().as_ref())) == w.cached[k]) }
        w.open(&t, 0, true, false);
        let t = Arc::new(t);
        w.open(&t, len(1), bit(), false);
        for k in 0..2 { check!(t.contains(&w.paths[k]) == w.on_disk[k].is_some()) }
        check!(t.is_read_only());
    }
    fn s_boxed() {
        let (mut w, t) = World::new();
        let mut t: Box<dyn TagTree + Send + Sync> = Box::new(t);
        for _ in 0..3 {
            let k = len(1);
            match len(2) { 0 => w.open(&t, k, true, bit()), 1 => w.open(&t, k, false, bit()), _ => w.write(&mut t, k, bit()) }
            w.check();
        }
        w.sees(&t);
    }
}
kani_harnesses! {}
