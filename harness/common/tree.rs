//! A tag tree of a few tags in memory.
#![allow(dead_code)]
use std::{collections::HashMap, sync::{Arc, Mutex}};
use ringhopper::{definitions::*, primitives::{primitive::*, error::*, tag::*, engine::Engine}, tag::{tree::*, result::TagResult, verify::verif}};
pub type Dyn = Box<dyn PrimaryTagStructDyn>;
#[derive(Default)]
pub struct Mem { pub tags: Vec<(TagPath, Arc<Mutex<Dyn>>)> }
impl Mem {
    pub fn add<T: PrimaryTagStructDyn>(&mut self, path: &str, t: T) -> TagPath {
        let p = match TagPath::new(path, t.group()) { Ok(p) => p, Err(e) => { std::mem::forget(e); panic!() } };
        let d: Dyn = Box::new(t);
        self.tags.push((p.clone(), Arc::new(Mutex::new(d))));
        p
    }
    fn find(&self, path: &TagPath) -> Option<&Arc<Mutex<Dyn>>> { self.tags.iter().find(|t| t.0 == *path).map(|t| &t.1) }
}
impl TagTree for Mem {
    fn open_tag_copy(&self, path: &TagPath) -> RinghopperResult<Dyn> { match self.find(path) { Some(t) => Ok(t.lock().unwrap().clone_inner()), None => Err(Error::TagNotFound(path.clone())) } }
    fn open_tag_shared(&self, path: &TagPath) -> RinghopperResult<Arc<Mutex<Dyn>>> { match self.find(path) { Some(t) => Ok(t.clone()), None => Err(Error::TagNotFound(path.clone())) } }
    fn files_in_path(&self, _: &str) -> Option<Vec<TagTreeItem>> { None }
    fn write_tag(&mut self, path: &TagPath, tag: &dyn PrimaryTagStructDyn) -> RinghopperResult<bool> { self.tags.push((path.clone(), Arc::new(Mutex::new(tag.clone_inner())))); Ok(true) }
    fn is_read_only(&self) -> bool { false }
    fn contains(&self, path: &TagPath) -> bool { self.find(path).is_some() }
    fn root(&self) -> TagTreeItem { unreachable!() }
    fn tree_type(&self) -> TreeType { TreeType::LooseTags }
    fn get_all_tags_with_filter(&self, _: Option<&TagFilter>) -> Vec<TagPath> { self.tags.iter().map(|t| t.0.clone()).collect() }
}
/// Verify `path` in a scenario `s` with HUD globals `h` (which are added).
pub fn verify(mut m: Mem, s: Scenario, h: HUDGlobals, path: &TagPath) -> HashMap<TagPath, TagResult> {
    let t = s._type;
    let (s, h) = (m.add("s", s), m.add("h", h));
    match verif::verify_tag(path, &s, &h, t, Arc::new(m), engine()) { Ok(r) => r, Err(e) => { std::mem::forget(e); panic!() } }
}
pub fn engine() -> &'static Engine { ringhopper_engines::ALL_SUPPORTED_ENGINES.iter().find(|e| e.name == "pc-custom").unwrap() }
pub fn counts(r: &HashMap<TagPath, TagResult>, p: &TagPath) -> Option<(usize, usize)> { r.get(p).map(|r| (r.errors.len(), r.warnings.len())) }
