pub use ::std::os::*;

pub mod unix {
    pub use ::std::os::unix::*;
    pub mod fs {
        pub use ::std::os::unix::fs::*;
        pub trait MetadataExt {
            fn size(&self) -> u64;
            fn ino(&self) -> u64;
        }
        impl MetadataExt for crate::fs::Metadata {
            fn size(&self) -> u64 {
                self.len()
            }
            fn ino(&self) -> u64 {
                self.ino_()
            }
        }
        pub trait FileExt {
            fn read_at(&self, buf: &mut [u8], offset: u64) -> ::std::io::Result<usize>;
            fn write_at(&self, buf: &[u8], offset: u64) -> ::std::io::Result<usize>;
        }
    }
}
pub mod linux {
    pub use ::std::os::linux::*;
}
