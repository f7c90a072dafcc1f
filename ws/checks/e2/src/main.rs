mod blocks;
mod entries;
mod era;
mod links;
mod state;

#[global_allocator]
static ALLOC: vcommon::MonitoredAlloc = vcommon::MonitoredAlloc;

fn main() {
    vcommon::run(&[
        ("E01", entries::containers),
        ("E02", blocks::block_files),
        ("E03", era::beacon_files),
        ("E04", state::state_files),
        ("E05", links::link_lists),
    ]);
}

fn crc32c(b: &[u8]) -> u32 {
    static TABLE: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = TABLE.get_or_init(|| {
        std::array::from_fn(|i| (0..8).fold(i as u32, |c, _| if c & 1 == 1 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 }))
    });
    !b.iter().fold(!0u32, |c, x| (c >> 8) ^ t[((c ^ *x as u32) & 0xff) as usize])
}

/// Framed form of some bytes, in plain chunks of a chosen size.
pub fn frame(b: &[u8], chunk: usize) -> Vec<u8> {
    let mut out = b"\xff\x06\x00\x00sNaPpY".to_vec();
    for c in b.chunks(chunk.clamp(1, 65536)) {
        out.push(1);
        out.extend_from_slice(&(c.len() as u32 + 4).to_le_bytes()[..3]);
        let x = crc32c(c);
        out.extend_from_slice(&((x.rotate_right(15)).wrapping_add(0xa282_ead8)).to_le_bytes());
        out.extend_from_slice(c);
    }
    out
}

pub fn unframe(b: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    std::io::Read::read_to_end(&mut snap::read::FrameDecoder::new(b), &mut out).ok().map(|_| out)
}

/// Entry: big-endian-looking type tag, length, reserved bytes, value.
pub fn entry(ty: u16, v: &[u8]) -> Vec<u8> {
    let mut out = vec![(ty >> 8) as u8, ty as u8];
    out.extend_from_slice(&(v.len() as u32).to_le_bytes());
    out.extend_from_slice(&[0, 0]);
    out.extend_from_slice(v);
    out
}

/// The entries of a file, if it is well formed.
pub fn split(b: &[u8]) -> Option<Vec<(u16, &[u8])>> {
    let mut out = vec![];
    let mut at = 0;
    while at < b.len() {
        let h = b.get(at..at + 8)?;
        let n = u32::from_le_bytes(h[2..6].try_into().ok()?) as usize;
        if h[6..] != [0, 0] {
            return None;
        }
        out.push((u16::from_be_bytes([h[0], h[1]]), b.get(at + 8..at + 8 + n)?));
        at += 8 + n;
    }
    Some(out)
}

pub fn scratch() -> tempfile::TempDir {
    tempfile::Builder::new().prefix("verif-e2").tempdir_in("/dev/shm").or_else(|_| tempfile::tempdir()).expect("scratch directory")
}
