macro_rules! modules {
    ($($f:literal $m:ident),*) => {
        $(#[cfg(feature = $f)] mod $m;)*
        #[allow(dead_code)]
        const TABLES: &[&[(&str, fn())]] = &[$(#[cfg(feature = $f)] $m::TABLE),*];
    };
}
modules!("arith" arith, "basic" basic, "num2" num2, "spec" spec, "conv" conv);
