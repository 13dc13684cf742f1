//! Verification stub: the program declares spl-token but no source file uses it.
#![no_std]
