// P20: the mipmaps and faces of a texture are laid out one after another, each half the size of the one before.
#[path = "../../common/nd.rs"] #[macro_use] pub mod nd;
use nd::*;
use std::num::NonZeroUsize;
use ringhopper::{tag::bitmap::*, definitions::*};

fn nz(n: usize) -> NonZeroUsize { NonZeroUsize::new(n).unwrap() }
fn half(n: usize, m: usize) -> usize { (n >> m).max(1) }
/// The number of mipmaps until everything is a single pixel.
fn most(w: usize, h: usize, d: usize) -> usize { let mut m = 0; while half(w, m) > 1 || half(h, m) > 1 || half(d, m) > 1 { m += 1 } m }
#[derive(Copy, Clone)]
struct Level { w: usize, h: usize, d: usize, bw: usize, bh: usize, faces: usize, at: usize }
/// What the layout is: per mipmap the size, the size in blocks, the number of faces and where it starts.
fn levels(w: usize, h: usize, t: MipmapType, block: usize, count: Option<usize>) -> Vec<Level> {
    let d = if let MipmapType::ThreeDimensional(d) = t { d.get() } else { 1 };
    let n = most(w, h, d).min(count.unwrap_or(usize::MAX));
    let mut v = Vec::new();
    let mut at = 0;
    for m in 0..=n {
        let (w, h, d) = (half(w, m), half(h, m), half(d, m));
        let (bw, bh) = ((w + block - 1) / block, (h + block - 1) / block);
        let faces = if t == MipmapType::Cubemap { 6 } else { d };
        v.push(Level { w, h, d, bw, bh, faces, at });
        at += bw * bh * faces;
    }
    v
}
fn faces(it: MipmapFaceIterator, levels: &[Level], all: bool) {
    let mut it = it;
    for (m, l) in levels.iter().enumerate() {
        for f in 0..l.faces {
            let Some(x) = it.next() else { check!(false); return };
            if !all && f > 0 && f + 1 < l.faces { continue }
            check!(x.mipmap_index == m && x.face_index == f);
            check!(x.width == l.w && x.height == l.h);
            check!(x.block_width == l.bw && x.block_height == l.bh && x.block_count == l.bw * l.bh);
            check!(x.block_offset == l.at + f * (l.bw * l.bh));
        }
    }
    check!(it.next().is_none() && it.next().is_none());
}
fn textures(it: MipmapTextureIterator, levels: &[Level]) {
    let mut it = it;
    for (m, l) in levels.iter().enumerate() {
        let Some(x) = it.next() else { check!(false); return };
        check!(x.mipmap_index == m && x.width == l.w && x.height == l.h && x.depth == l.d);
        check!(x.block_width == l.bw && x.block_height == l.bh);
        check!(x.block_offset == l.at && x.block_count == l.bw * l.bh * l.faces);
    }
    check!(it.next().is_none() && it.next().is_none());
}
fn both(w: usize, h: usize, t: MipmapType, block: usize, count: Option<usize>) {
    let l = levels(w, h, t, block, count);
    faces(MipmapFaceIterator::new(nz(w), nz(h), t, nz(block), count), &l, true);
    textures(MipmapTextureIterator::new(nz(w), nz(h), t, nz(block), count), &l);
}
/// Any number of mipmaps, or as many as there are.
fn count() -> Option<usize> { if split(any::<u8>() as usize & 1) == 1 { None } else { Some(any()) } }
const FORMATS: [BitmapDataFormat; 14] = [BitmapDataFormat::A8, BitmapDataFormat::Y8, BitmapDataFormat::AY8, BitmapDataFormat::A8Y8, BitmapDataFormat::R5G6B5, BitmapDataFormat::A1R5G5B5, BitmapDataFormat::A4R4G4B4,
    BitmapDataFormat::X8R8G8B8, BitmapDataFormat::A8R8G8B8, BitmapDataFormat::DXT1, BitmapDataFormat::DXT3, BitmapDataFormat::DXT5, BitmapDataFormat::P8, BitmapDataFormat::BC7];
const BITS: [usize; 14] = [8, 8, 8, 16, 16, 16, 16, 32, 32, 4, 8, 8, 8, 8];
harnesses! {
    /// Any width with several heights.
    fn s_wide() {
        let w: u16 = any();
        assume(w >= 1 && w as usize <= bound(64, 1024));
        let h = [1, 2, 5, 64, 100][len(4)];
        both(w as usize, h, MipmapType::TwoDimensional, [1, 4][len(1)], count());
    }
    fn s_high() {
        let h: u16 = any();
        assume(h >= 1 && h as usize <= bound(128, 2048));
        let w = [1, 3, 8, 32][len(3)];
        both(w, h as usize, MipmapType::TwoDimensional, [1, 4][len(1)], count());
    }
    fn s_cube() {
        let w: u16 = any();
        assume(w >= 1 && w as usize <= bound(8, 24));
        let h = [1, 4, 9][len(2)];
        both(w as usize, h, MipmapType::Cubemap, [1, 4][len(1)], count());
    }
    fn s_deep() {
        let w: u16 = any();
        assume(w >= 1 && w as usize <= bound(12, 40));
        let d = 1 + len(bound(5, 9));
        both(w as usize, [1, 2, 6][len(2)], MipmapType::ThreeDimensional(nz(d)), [1, 4][len(1)], count());
    }
    /// Everything small.
    fn s_small() {
        let n = bound(6, 12);
        let (w, h) = (1 + len(n), 1 + len(n));
        let t = [MipmapType::TwoDimensional, MipmapType::Cubemap, MipmapType::ThreeDimensional(nz(1 + len(3)))][len(2)];
        both(w, h, t, 1 + len(4), count());
    }
    /// The layout a bitmap tag asks for, or an error if it has no pixels.
    fn s_bitmap_data() {
        let f = len(13);
        let kind = [BitmapDataType::_2dTexture, BitmapDataType::_3dTexture, BitmapDataType::CubeMap][len(2)];
        let w: u16 = any();
        assume(w as usize <= bound(6, 20));
        let h = [0, 1, 4, 9][len(3)];
        let d = [0, 1, 3][len(2)];
        let data = BitmapData { width: w, height: h, depth: d, _type: kind, format: FORMATS[f], mipmap_count: any(), ..Default::default() };
        let a = ok(MipmapFaceIterator::new_from_bitmap_data(&data));
        let b = ok(MipmapTextureIterator::new_from_bitmap_data(&data));
        let good = w != 0 && h != 0 && (d != 0 || kind != BitmapDataType::_3dTexture);
        check!(a.is_some() == good && b.is_some() == good);
        cover!(0, good); cover!(1, !good);
        if !good { return }
        let t = match kind { BitmapDataType::_2dTexture => MipmapType::TwoDimensional, BitmapDataType::_3dTexture => MipmapType::ThreeDimensional(nz(d as usize)), BitmapDataType::CubeMap => MipmapType::Cubemap };
        let l = levels(w as usize, h as usize, t, if f >= 9 && f != 12 { 4 } else { 1 }, Some(data.mipmap_count as usize));
        faces(a.unwrap(), &l, false);
        textures(b.unwrap(), &l);
    }
    /// The size of a pixel and of a block.
    fn s_formats() {
        let f = len(13);
        let b = if f >= 9 && f != 12 { 4 } else { 1 };
        check!(bits_per_pixel(FORMATS[f]).get() == BITS[f] && pixels_per_block_length(FORMATS[f]).get() == b && bytes_per_block(FORMATS[f]).get() == BITS[f] * b * b / 8);
        check!(COMPRESSED_BITMAP_DATA_FORMATS.contains(&FORMATS[f]) == (b == 4));
    }
}
kani_harnesses! {}
