//! Independent writers of object file formats, used as the reference the crate
//! under test is measured against.  They follow the published format
//! definitions and share no code with the crate.
pub mod w;
pub mod coff;
pub mod elf;
pub mod elf_rel;
pub mod elfdyn;
pub mod macho;
pub mod pe;
pub mod strict;
pub mod xcoff;
