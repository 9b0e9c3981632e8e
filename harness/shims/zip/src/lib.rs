//! One file per archive, deflated, optionally under a password; a trailer with length and CRC.
//! `faults::limit` makes the disk of this thread's writers full after so many bytes.
use std::io::{self, Read, Seek, Write};

pub mod result {
    #[derive(Debug)]
    pub enum ZipError {
        Io(std::io::Error),
        InvalidArchive(&'static str),
        UnsupportedArchive(&'static str),
        FileNotFound,
        InvalidPassword,
    }
    impl std::fmt::Display for ZipError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for ZipError {}
    impl From<std::io::Error> for ZipError {
        fn from(e: std::io::Error) -> Self {
            ZipError::Io(e)
        }
    }
    pub type ZipResult<T> = Result<T, ZipError>;
}
use result::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AesMode {
    Aes128,
    Aes192,
    Aes256,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CompressionMethod {
    Stored,
    Deflated,
}
pub mod write {
    #[derive(Clone, Copy, Debug)]
    pub struct FileOptions<'k> {
        pub(crate) password: Option<(crate::AesMode, &'k str)>,
        pub(crate) method: crate::CompressionMethod,
    }
    impl Default for FileOptions<'_> {
        fn default() -> Self {
            FileOptions { password: None, method: crate::CompressionMethod::Deflated }
        }
    }
    pub type SimpleFileOptions = FileOptions<'static>;
    impl<'k> FileOptions<'k> {
        pub fn compression_method(mut self, m: crate::CompressionMethod) -> Self {
            self.method = m;
            self
        }
        pub fn compression_level(self, _: Option<i64>) -> Self {
            self
        }
        pub fn large_file(self, _: bool) -> Self {
            self
        }
        pub fn unix_permissions(self, _: u32) -> Self {
            self
        }
        pub fn with_aes_encryption(self, m: crate::AesMode, p: &str) -> FileOptions<'_> {
            FileOptions { password: Some((m, p)), method: self.method }
        }
    }
}
pub mod faults {
    use std::collections::HashMap;
    use std::path::{Path, PathBuf};
    use std::sync::Mutex;
    static LIMIT: Mutex<Option<HashMap<PathBuf, u64>>> = Mutex::new(None);
    /// The device under `dir` has room for `bytes` bytes of an archive.
    pub fn limit(dir: &Path, bytes: Option<u64>) {
        let mut g = LIMIT.lock().unwrap();
        let m = g.get_or_insert_with(HashMap::new);
        match bytes {
            Some(b) => m.insert(dir.to_path_buf(), b),
            None => m.remove(dir),
        };
    }
    pub(crate) fn room(f: &dyn std::any::Any) -> Option<u64> {
        use std::os::fd::AsRawFd;
        let f = f.downcast_ref::<std::fs::File>()?;
        let p = std::fs::read_link(format!("/proc/self/fd/{}", f.as_raw_fd())).ok()?;
        let g = LIMIT.lock().unwrap();
        g.as_ref()?.iter().find(|(d, _)| p.starts_with(d)).map(|(_, b)| *b)
    }
}

fn crc(b: &[u8]) -> u32 {
    let mut c = flate2::Crc::new();
    c.update(b);
    c.sum()
}
/// Not encryption, but unreadable without the password.
fn scramble(pwd: &str, b: &mut [u8]) {
    let mut x = 0x9e37_79b9_7f4a_7c15u64;
    for c in pwd.bytes() {
        x = (x ^ c as u64).wrapping_mul(0x100_0000_01b3).rotate_left(17) ^ 0xd1b5_4a32_d192_ed03;
    }
    for v in b {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *v ^= (x >> 24) as u8;
    }
}

pub struct ZipWriter<W: Write + Seek + 'static> {
    w: Option<W>,
    file: Option<(String, Option<String>, Vec<u8>)>,
    out: u64,
    room: Option<u64>,
}
impl<W: Write + Seek + 'static> ZipWriter<W> {
    pub fn new(w: W) -> Self {
        let room = faults::room(&w);
        ZipWriter { w: Some(w), file: None, out: 0, room }
    }
    pub fn start_file<S: ToString>(&mut self, name: S, o: write::FileOptions) -> ZipResult<()> {
        if self.file.is_some() {
            return Err(ZipError::UnsupportedArchive("one file per archive"));
        }
        self.file = Some((name.to_string(), o.password.map(|(_, p)| p.to_string()), vec![]));
        Ok(())
    }
    fn end(&mut self) -> ZipResult<()> {
        let Some((name, pwd, data)) = self.file.take() else { return Ok(()) };
        let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::fast());
        e.write_all(&data)?;
        let mut z = e.finish()?;
        let sum = crc(&z);
        if let Some(p) = &pwd {
            scramble(p, &mut z);
        }
        let mut out = b"PKshim".to_vec();
        out.push(pwd.is_some() as u8);
        out.extend((name.len() as u32).to_le_bytes());
        out.extend(name.as_bytes());
        out.extend(&z);
        out.extend((z.len() as u64).to_le_bytes());
        out.extend(sum.to_le_bytes());
        let n = self.room.map_or(out.len(), |r| out.len().min(r as usize));
        let w = self.w.as_mut().unwrap();
        w.write_all(&out[..n])?;
        w.flush()?;
        if n < out.len() {
            return Err(io::Error::new(io::ErrorKind::StorageFull, "no space left on device").into());
        }
        Ok(())
    }
    pub fn finish(mut self) -> ZipResult<W> {
        self.end()?;
        Ok(self.w.take().unwrap())
    }
}
impl<W: Write + Seek + 'static> Write for ZipWriter<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.out += b.len() as u64;
        if self.room.is_some_and(|r| self.out > r) {
            return Err(io::Error::new(io::ErrorKind::StorageFull, "no space left on device"));
        }
        match &mut self.file {
            Some(f) => {
                f.2.extend(b);
                Ok(b.len())
            }
            None => Err(io::Error::other("no file has been started")),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl<W: Write + Seek + 'static> Drop for ZipWriter<W> {
    fn drop(&mut self) {
        // the archive is finished with what has been written, as by the real crate
        if self.w.is_some() {
            let _ = self.end();
        }
    }
}

/// The content of an archive's file.
pub fn content(archive: &[u8], pwd: Option<&str>) -> ZipResult<Vec<u8>> {
    let bad = ZipError::InvalidArchive("cut off or not an archive");
    if archive.len() < 23 || !archive.starts_with(b"PKshim") {
        return Err(bad);
    }
    let (enc, n) = (archive[6] == 1, u32::from_le_bytes(archive[7..11].try_into().unwrap()) as usize);
    let (at, end) = (11 + n, archive.len() - 12);
    if at > end || u64::from_le_bytes(archive[end..end + 8].try_into().unwrap()) != (end - at) as u64 {
        return Err(bad);
    }
    let mut z = archive[at..end].to_vec();
    if enc != pwd.is_some() {
        return Err(if enc { ZipError::InvalidPassword } else { ZipError::InvalidArchive("not under a password") });
    }
    if let Some(p) = pwd {
        scramble(p, &mut z);
    }
    if crc(&z) != u32::from_le_bytes(archive[end + 8..].try_into().unwrap()) {
        return Err(if enc { ZipError::InvalidPassword } else { bad });
    }
    let mut out = vec![];
    flate2::read::DeflateDecoder::new(&z[..]).read_to_end(&mut out)?;
    Ok(out)
}
