#![allow(unexpected_cfgs, static_mut_refs, unused_macros, dead_code)]
pub mod nd;
pub mod iterdrive;
macro_rules! modules {
    ($($m:ident $f:literal),*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        #[cfg(not(kani))]
        pub fn find(name: &str) -> Option<fn(&mut nd::Nd)> {
            let mut tables: Vec<&'static [(&'static str, fn(&mut nd::Nd))]> = Vec::new();
            $( #[cfg(feature = $f)] tables.push($m::TABLE); )*
            tables.iter().flat_map(|t| t.iter()).find(|(n, _)| *n == name).map(|(_, f)| *f)
        }
    };
}
modules! {
    c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c06p "c06p", c12 "c12", c20 "c20", c20m "c20m", c21 "c21"
}
