//! A map whose domains are plain byte arrays.
#![allow(dead_code)]
use ringhopper_primitives::{map::*, engine::*, error::*, primitive::*, tag::PrimaryTagStructDyn};
const fn engine(external: bool, compressed: bool) -> Engine {
    Engine { name: "", display_name: "", version: None, build: None, build_target: false, custom: false, fallback: false, cache_default: false, cache_file_version: 7,
        max_script_nodes: 19001, max_tag_space: 0x1700000, external_bsps: external, external_models: external, compressed_models: compressed, data_alignment: 4,
        bitmap_options: EngineBitmapOptions { swizzled: false, texture_dimension_must_modulo_block_size: false, cubemap_faces_stored_separately: false, alignment: 1 },
        resource_maps: None, compression_type: EngineCompressionType::Uncompressed,
        max_cache_file_size: EngineCacheFileSize { user_interface: 0, singleplayer: 0, multiplayer: 0 },
        base_memory_address: EngineBaseMemoryAddress { address: 0, inferred: false },
        required_tags: EngineRequiredTags { all: &[], user_interface: &[], singleplayer: &[], multiplayer: &[] }, cache_parser: EngineCacheParser::PC }
}
pub static ENGINES: [Engine; 4] = [engine(false, false), engine(false, true), engine(true, false), engine(true, true)];
pub struct FakeMap { pub data: Vec<u8>, pub base: usize, pub bsp: Option<(Vec<u8>, usize)>, pub engine: usize, pub tags: Vec<Tag> }
impl FakeMap {
    pub fn new(data: Vec<u8>, base: usize) -> Self { Self { data, base, bsp: None, engine: 0, tags: Vec::new() } }
    pub fn slice(&self, at: usize, n: usize) -> Option<&[u8]> { let o = at.checked_sub(self.base)?; self.data.get(o..o.checked_add(n)?) }
    /// The map file as a whole: the same bytes from 0.
    pub fn file(&self, at: usize, n: usize) -> Option<&[u8]> { self.data.get(at..at.checked_add(n)?) }
    /// The sound resource map: the same bytes from 3.
    pub fn sounds(&self, at: usize, n: usize) -> Option<&[u8]> { let o = at.checked_sub(3)?; self.data.get(o..o.checked_add(n)?) }
}
impl Map for FakeMap {
    fn get_name(&self) -> &str { "" }
    fn get_build_string(&self) -> &str { "" }
    fn get_engine(&self) -> &'static Engine { &ENGINES[self.engine] }
    fn extract_tag(&self, _: &TagPath) -> RinghopperResult<Box<dyn PrimaryTagStructDyn>> { Err(Error::InvalidTagPath) }
    fn get_domain(&self, domain: &DomainType) -> Option<(&[u8], usize)> {
        match domain {
            DomainType::TagData => Some((&self.data, self.base)),
            DomainType::MapData => Some((&self.data, 0)),
            DomainType::ResourceMapFile(ResourceMapType::Sounds) => Some((&self.data, 3)),
            DomainType::BSP(0) => match &self.bsp { Some((d, b)) => Some((d, *b)), None => Some((&self.data, self.base)) },
            DomainType::BSPVertices(0) => Some((&self.data, 0)),
            _ => None
        }
    }
    fn get_tag_by_id(&self, id: ID) -> Option<&Tag> { self.tags.get(id.index()? as usize) }
    fn get_tag(&self, path: &TagPath) -> Option<&Tag> { self.tags.iter().find(|t| t.tag_path == *path) }
    fn get_scenario_tag(&self) -> &Tag { &self.tags[0] }
    fn get_all_tags(&self) -> Vec<TagPath> { self.tags.iter().map(|t| t.tag_path.clone()).collect() }
}
