//! Wasm.
use super::{T, generic};
use object::read::ReadRef;
use object::read::wasm::WasmFile;

pub fn wasm<'data, R: ReadRef<'data>>(data: R, t: &mut T) {
    let Ok(id) = data.read_bytes_at(0, 4) else { return };
    if id != b"\0asm" {
        return;
    }
    if let Some(f) = t.ok("wasm", WasmFile::parse(data)) {
        t.at("wasm");
        generic::object(&f, t);
    }
}
