//! C34: the emulator's own main, built with ThreadSanitizer.

mod bigmem;

include!("/repo/src/main.rs");
