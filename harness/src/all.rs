#[path = "sx.rs"]
pub mod sx;
#[path = "gr.rs"]
pub mod gr;
#[path = "grp.rs"]
pub mod grp;
#[path = "nets.rs"]
pub mod nets;
pub type H = extern "C-unwind" fn();
macro_rules! groups { ($($cfg:ident : $m:ident [ $($h:ident),* $(,)? ];)*) => {
    $( #[cfg($cfg)] mod $m; )*
    #[used]
    pub static TABLE: &[(&str, H)] = &[ $( $( #[cfg($cfg)] (stringify!($h), $m::$h), )* )* ];
} }
include!("groups.rs");
