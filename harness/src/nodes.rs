//! The node classes the core driver populates its trees with.
use crate::core;
use node_tree::prelude::*;
use node_tree::structs::node_field::Field as _F;

pub trait Greet {
    fn greet(&self) -> u64;
    fn tag(&mut self, v: String);
}
pub trait Calc {
    fn calc(&self) -> u64;
}

pub const MODES: [&str; 4] = ["Inherit", "Always", "Pausable", "Inverse"];

/// Tells the driver when its node is dropped.
#[derive(Debug)]
pub struct Grave(u64);
impl Drop for Grave {
    fn drop(&mut self) { core::buried(self.0); }
}

macro_rules! node_class {
    ($name:ident $(, $ext:ident)*) => {
        class! {
            pub declare $name extends Marker $(, $ext)*;

            pub signal sig(v: u32);

            pub let uid:  u64;
            pub let mode: u8 = 0;

            pub export         let ex: String = "e".to_string();
            pub export default let ed: String;
            pub default        let df: String;
            pub unique         let uq: String = "q".to_string();
            pub                let pl: String = "p".to_string();
            pub unique         let grave: Grave;

            hk _init(uid_: u64) {
                let uid: u64 = uid_;
                let grave: Grave = Grave(uid_);
            }
            hk loaded(&mut self)  { core::hook(self, "loaded", None); }
            hk ready(&mut self)   { core::hook(self, "ready", None); }
            hk process(&mut self, delta: f32) { core::hook(self, "process", Some(delta)); }
            hk terminal(&mut self, reason: TerminationReason) {
                core::hook(self, match reason {
                    TerminationReason::TreeExit       => "TreeExit",
                    TerminationReason::RemovedAsChild => "RemovedAsChild",
                    TerminationReason::Freed          => "Freed",
                }, None);
            }
            hk process_mode(&self) -> ProcessMode {
                match *self.mode {
                    1 => ProcessMode::Always,
                    2 => ProcessMode::Pausable,
                    3 => ProcessMode::Inverse,
                    _ => ProcessMode::Inherit,
                }
            }

            pub fn on_sig(&mut self, v: &u32) { core::listen(self, "sig", *v); }
            pub fn on_sig_ref(&self, v: &u32) { core::listen_ref(self, "sigr", *v); }

            pub fn conn(&self, to: u8, once: bool, t: TpDyn<'static>) -> RID {
                match to {
                    0 => { let tp: Tp<$crate::nodes::Na> = t.to().to_option().unwrap(); if once { connect! { sig ~> tp.on_sig } } else { connect! { sig -> tp.on_sig } } },
                    1 => { let tp: Tp<$crate::nodes::Nb> = t.to().to_option().unwrap(); if once { connect! { sig ~> tp.on_sig } } else { connect! { sig -> tp.on_sig } } },
                    2 => { let tp: Tp<$crate::nodes::Nc> = t.to().to_option().unwrap(); if once { connect! { sig ~> tp.on_sig_ref } } else { connect! { sig -> tp.on_sig_ref } } },
                    _ => { let tp: Tp<$crate::nodes::Nd> = t.to().to_option().unwrap(); if once { connect! { sig ~> tp.on_sig } } else { connect! { sig -> tp.on_sig } } },
                }
            }
        }
        impl Marker for $name {}
    };
}

pub trait Marker {}
node_class!(Na, Greet, Calc);
node_class!(Nb, Greet);
node_class!(Nc);
/// A class of the same short name as another one's.
pub mod twin {
    use super::*;
    node_class!(Na, Calc);
    impl Calc for Na {
        fn calc(&self) -> u64 { *self.uid }
    }
}
pub use twin::Na as Nd;

impl Greet for Na {
    fn greet(&self) -> u64 { *self.uid }
    fn tag(&mut self, v: String) { self.pl.write_valid(v); }
}
impl Greet for Nb {
    fn greet(&self) -> u64 { *self.uid }
    fn tag(&mut self, v: String) { self.pl.write_valid(v); }
}
impl Calc for Na {
    fn calc(&self) -> u64 { *self.uid }
}

/// What the harness needs of every class.
pub trait Probe {
    fn uid(&self) -> Option<u64>;
    fn ty(&self) -> &'static str;
    fn full(&self) -> &'static str;
    fn set_uid(&mut self, u: u64);
    fn set_mode(&mut self, m: u8);
    fn vals(&self) -> [String; 5];
    fn set_vals(&mut self, v: &[Option<String>; 5]);
    fn sigref(&self) -> &Signal<u32>;
    fn fld(&mut self, f: &str) -> Fld<'_>;
    fn connect(&self, to: u8, once: bool, t: TpDyn<'static>) -> RID;
}
pub enum Fld<'a> {
    Plain(&'a mut Field<String>),
    Unique(&'a mut UniqueField<String>),
    Export(&'a mut ExportableField<String>),
    Default(&'a mut DefaultField<String>),
}
macro_rules! probe {
    ($($name:ident $s:literal),*) => {
        $(impl Probe for $name {
            fn uid(&self) -> Option<u64> { match &self.uid { _F::Valid(u) => Some(*u), _ => None } }
            fn ty(&self) -> &'static str { $s }
            fn full(&self) -> &'static str { std::any::type_name::<Self>() }
            fn set_uid(&mut self, u: u64) {
                self.uid = Field::new(u);
                std::mem::forget(std::mem::replace(&mut self.grave, UniqueField::new(Grave(u))));
            }
            fn set_mode(&mut self, m: u8) { self.mode = Field::new(m); }
            fn vals(&self) -> [String; 5] {
                [(*self.ex).clone(), (*self.ed).clone(), (*self.df).clone(),
                 if self.uq.is_void() { "_".into() } else { (*self.uq).clone() },
                 if self.pl.is_void() { "_".into() } else { (*self.pl).clone() }]
            }
            fn set_vals(&mut self, v: &[Option<String>; 5]) {
                if let Some(x) = &v[0] { *self.ex = x.clone(); }
                if let Some(x) = &v[1] { *self.ed = x.clone(); }
                if let Some(x) = &v[2] { *self.df = x.clone(); }
                if let Some(x) = &v[3] { self.uq = UniqueField::new(x.clone()); }
                if let Some(x) = &v[4] { self.pl = Field::new(x.clone()); }
            }
            fn sigref(&self) -> &Signal<u32> { &self.sig }
            fn fld(&mut self, f: &str) -> Fld<'_> {
                match f {
                    "pl" => Fld::Plain(&mut self.pl),
                    "uq" => Fld::Unique(&mut self.uq),
                    "ex" => Fld::Export(&mut self.ex),
                    "ed" => Fld::Export(&mut self.ed),
                    _    => Fld::Default(&mut self.df),
                }
            }
            fn connect(&self, to: u8, once: bool, t: TpDyn<'static>) -> RID { self.conn(to, once, t) }
        })*
        pub fn probe(n: &dyn Node) -> &dyn Probe {
            let a = n.as_any_ref();
            $( if let Some(x) = a.downcast_ref::<$name>() { return x; } )*
            panic!("unknown node class {}", n.name_as_type())
        }
        pub fn probe_mut(n: &mut dyn Node) -> &mut dyn Probe {
            let p: *mut dyn Node = n;
            $( if let Some(x) = unsafe { &mut *p }.as_any_mut().downcast_mut::<$name>() { return x; } )*
            panic!("unknown node class")
        }
        pub fn make(ty: &str, uid: u64) -> Box<dyn Node> {
            match ty { $( $s => Box::new($name::new(uid)), )* _ => panic!("unknown type {ty}") }
        }
    };
}
probe!(Na "Na", Nb "Nb", Nc "Nc", Nd "Nd");

pub fn ty_index(ty: &str) -> u8 { match ty { "Na" => 0, "Nb" => 1, "Nc" => 2, _ => 3 } }

#[derive(Debug, Tree)]
pub struct MyTree {
    base: Option<NodeTreeBase>,
}
impl MyTree {
    pub fn new<I: Instanceable>(scene: I, verbosity: LoggerVerbosity) -> Box<Self> {
        let mut tree: Box<MyTree> = Box::new(MyTree { base: None });
        initialize_base(&mut tree, scene, verbosity);
        tree
    }
}
