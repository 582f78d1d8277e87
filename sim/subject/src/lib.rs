//! Monomorphic entry points for diffy's generic functions.  `write_patch_into` is generic over the
//! writer, so its code is generated in the calling crate: this crate is compiled with the same
//! scheduling instrumentation as diffy itself, the simulator is not.
use diffy::{Patch, PatchFormatter};
use std::{fmt, io};

pub fn write_str(f: &PatchFormatter, p: &Patch<'_, str>, w: &mut dyn io::Write) -> io::Result<()> {
    f.write_patch_into(p, w)
}

pub fn write_bytes(f: &PatchFormatter, p: &Patch<'_, [u8]>, w: &mut dyn io::Write) -> io::Result<()> {
    f.write_patch_into(p, w)
}

pub fn display_str(f: &PatchFormatter, p: &Patch<'_, str>, w: &mut dyn fmt::Write) -> fmt::Result {
    write!(w, "{}", f.fmt_patch(p))
}

/// `Display` of the patch itself (default options).
pub fn display_default(p: &Patch<'_, str>, w: &mut dyn fmt::Write) -> fmt::Result {
    write!(w, "{}", p)
}

pub fn to_bytes_str(p: &Patch<'_, str>) -> Vec<u8> {
    p.to_bytes()
}

pub fn to_bytes_bytes(p: &Patch<'_, [u8]>) -> Vec<u8> {
    p.to_bytes()
}
