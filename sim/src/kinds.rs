//! Typed access to the 15 validated types, one marker type per kind.
use crate::ctx::{show, R};
use crate::{ensure, fail};
use std::borrow::Borrow;
use std::fmt::{Debug, Display};
use std::hash::Hash;

pub trait Ty: 'static {
    type B: ?Sized
        + Eq
        + Ord
        + Hash
        + Display
        + Debug
        + AsRef<str>
        + AsRef<[u8]>
        + ToOwned<Owned = Self::O>
        + serde::Serialize
        + PartialEq<str>
        + PartialOrd<str>
        + PartialEq<[u8]>
        + PartialOrd<[u8]>
        + PartialEq<Self::O>
        + PartialOrd<Self::O>
        + Send
        + Sync;
    type O: Clone
        + Eq
        + Ord
        + Hash
        + Display
        + Debug
        + Borrow<Self::B>
        + std::ops::Deref<Target = Self::B>
        + AsRef<str>
        + serde::Serialize
        + serde::de::DeserializeOwned
        + PartialEq<str>
        + PartialEq<String>
        + PartialOrd<String>
        + PartialOrd<str>
        + PartialEq<Self::B>
        + PartialOrd<Self::B>
        + Send
        + Sync;
    fn parse(b: &[u8]) -> Option<&Self::B>;
    fn parse_own(s: String) -> Option<Self::O>;
    /// Parses what a caller's type provides, or gives that type back.
    fn parse_from<P: AsRef<[u8]>>(p: &P) -> Result<&Self::B, &P>;
    fn text(b: &Self::B) -> &str;
    fn otext(o: &Self::O) -> &str;
    /// Every way to parse `b` agrees with `expect`; accepted values expose
    /// exactly `b`, refused inputs come back unchanged.
    fn routes(b: &[u8], expect: bool) -> R;
    /// Deserialize the borrowed form.
    fn de_borrowed<'de, D: serde::Deserializer<'de>>(d: D) -> Result<&'de Self::B, D::Error>;
    /// Allocation-free parse routes (borrowed), for C08.
    fn borrowed_routes(s: &str) -> [Option<&Self::B>; 6];
    /// Debug and Display of the error for a refused text.
    fn error(s: &str, f: &mut dyn FnMut(&dyn Display, &dyn Debug) -> R) -> R;
    /// Comparison with the reference forms of plain text.
    fn eq_text(b: &Self::B, o: &Self::O, t: &str) -> [bool; 12];
    fn cmp_text(b: &Self::B, o: &Self::O, t: &str) -> [Option<std::cmp::Ordering>; 8];
    /// The ways to turn the caller's buffer into an owned value, and the buffer back when refused.
    fn adopt_string(route: u8, s: String) -> Result<Self::O, String>;
    fn adopt_bytes(route: u8, v: Vec<u8>) -> Result<Self::O, Vec<u8>>;
    /// The ways to get the buffer back.
    fn release_string(route: u8, o: Self::O) -> String;
    fn release_bytes(route: u8, o: Self::O) -> Vec<u8>;
    /// Copies the text when accepted, and into the error when refused.
    fn parse_str(s: &str) -> Result<Self::O, String>;
    /// The text as every view of the owned value shows it.
    fn views(o: &Self::O) -> [&[u8]; 8];
}

const UNSOUND: &str = "accepted-ill-formed";
const INCOMPLETE: &str = "refused-well-formed";
const ALTERED: &str = "value-differs-from-input";
const LOST: &str = "refused-input-altered";

macro_rules! ty {
    ($M:ident, $T:ident, $Buf:ident) => {
        pub struct $M;
        impl Ty for $M {
            type B = langtag::$T;
            type O = langtag::$Buf;
            fn parse(b: &[u8]) -> Option<&langtag::$T> {
                langtag::$T::new(b).ok()
            }
            fn parse_from<P: AsRef<[u8]>>(p: &P) -> Result<&langtag::$T, &P> {
                langtag::$T::new(p).map_err(|e| e.0)
            }
            fn parse_own(s: String) -> Option<langtag::$Buf> {
                langtag::$Buf::new(s).ok()
            }
            fn text(b: &langtag::$T) -> &str {
                b.as_str()
            }
            fn otext(o: &langtag::$Buf) -> &str {
                o.as_str()
            }
            fn de_borrowed<'de, D: serde::Deserializer<'de>>(d: D) -> Result<&'de langtag::$T, D::Error> {
                <&'de langtag::$T as serde::Deserialize<'de>>::deserialize(d)
            }
            fn borrowed_routes(s: &str) -> [Option<&langtag::$T>; 6] {
                [
                    langtag::$T::new(s).ok(),
                    langtag::$T::from_str(s).ok(),
                    langtag::$T::from_bytes(s.as_bytes()).ok(),
                    <&langtag::$T>::try_from(s).ok(),
                    <&langtag::$T>::try_from(s.as_bytes()).ok(),
                    langtag::$T::new(s.as_bytes()).ok(),
                ]
            }
            fn error(s: &str, f: &mut dyn FnMut(&dyn Display, &dyn Debug) -> R) -> R {
                if let Err(e) = langtag::$T::new(s) {
                    f(&e, &e)?;
                }
                if let Err(e) = s.parse::<langtag::$Buf>() {
                    f(&e, &e)?;
                }
                Ok(())
            }
            fn eq_text(b: &langtag::$T, o: &langtag::$Buf, t: &str) -> [bool; 12] {
                let s = t.to_owned();
                let y = t.as_bytes();
                let v = y.to_vec();
                [
                    *b == *t, *t == *b, *b == *y, *y == *b, *b == t, *b == y, *b == s, *b == v, *o == *t, *t == *o,
                    *o == s, *o == v,
                ]
            }
            fn cmp_text(b: &langtag::$T, o: &langtag::$Buf, t: &str) -> [Option<std::cmp::Ordering>; 8] {
                let s = t.to_owned();
                let y = t.as_bytes();
                [
                    b.partial_cmp(t),
                    t.partial_cmp(b).map(|o| o.reverse()),
                    b.partial_cmp(y),
                    b.partial_cmp(&t),
                    b.partial_cmp(&s),
                    o.partial_cmp(t),
                    t.partial_cmp(o).map(|o| o.reverse()),
                    o.partial_cmp(&s),
                ]
            }
            fn adopt_string(route: u8, s: String) -> Result<langtag::$Buf, String> {
                match route % 3 {
                    0 => langtag::$Buf::new(s).map_err(|e| e.0),
                    1 => langtag::$Buf::from_string(s).map_err(|e| e.0),
                    _ => langtag::$Buf::try_from(s).map_err(|e| e.0),
                }
            }
            fn adopt_bytes(route: u8, v: Vec<u8>) -> Result<langtag::$Buf, Vec<u8>> {
                match route % 3 {
                    0 => langtag::$Buf::new(v).map_err(|e| e.0),
                    1 => langtag::$Buf::from_bytes(v).map_err(|e| e.0),
                    _ => langtag::$Buf::try_from(v).map_err(|e| e.0),
                }
            }
            fn release_string(route: u8, o: langtag::$Buf) -> String {
                match route % 2 {
                    0 => o.into_string(),
                    _ => o.into(),
                }
            }
            fn release_bytes(route: u8, o: langtag::$Buf) -> Vec<u8> {
                match route % 2 {
                    0 => o.into_bytes(),
                    _ => o.into(),
                }
            }
            fn parse_str(s: &str) -> Result<langtag::$Buf, String> {
                s.parse::<langtag::$Buf>().map_err(|e| e.0)
            }
            fn views(o: &langtag::$Buf) -> [&[u8]; 8] {
                let b: &langtag::$T = Borrow::borrow(o);
                [
                    o.as_bytes(),
                    o.as_str().as_bytes(),
                    AsRef::<str>::as_ref(o).as_bytes(),
                    AsRef::<[u8]>::as_ref(o),
                    AsRef::<langtag::$T>::as_ref(o).as_bytes(),
                    b.as_bytes(),
                    (**o).as_str().as_bytes(),
                    <&str>::from(b).as_bytes(),
                ]
            }
            fn routes(b: &[u8], expect: bool) -> R {
                const N: &str = stringify!($T);
                macro_rules! verdict {
                    ($route:expr, $r:expr, $v:ident => $bytes:expr, $e:ident => $same:expr) => {
                        match $r {
                            Ok($v) => {
                                if !expect {
                                    fail!(UNSOUND, "{} via {} accepted {}", N, $route, show(b));
                                }
                                let got: &[u8] = $bytes;
                                ensure!(got == b, ALTERED, "{} via {}: {} became {}", N, $route, show(b), show(got));
                            }
                            Err($e) => {
                                if expect {
                                    fail!(INCOMPLETE, "{} via {} refused {}", N, $route, show(b));
                                }
                                ensure!($same, LOST, "{} via {}: error for {} carries another input", N, $route, show(b));
                            }
                        }
                    };
                }
                ensure!(
                    langtag::$T::validate_bytes(b) == expect,
                    if expect { INCOMPLETE } else { UNSOUND },
                    "{}::validate_bytes({}) = {}", N, show(b), !expect
                );
                verdict!("new(&[u8])", langtag::$T::new(b), v => v.as_bytes(), e => e.0 == b);
                verdict!("from_bytes", langtag::$T::from_bytes(b), v => v.as_bytes(), e => e.0 == b);
                verdict!("TryFrom<&[u8]>", <&langtag::$T>::try_from(b), v => AsRef::<[u8]>::as_ref(v), e => e.0 == b);
                let vec = b.to_vec();
                verdict!("owned new(Vec)", langtag::$Buf::new(vec.clone()), v => v.as_bytes(), e => e.0 == b);
                verdict!("owned from_bytes", langtag::$Buf::from_bytes(vec.clone()), v => v.as_bytes(), e => e.0 == b);
                verdict!("owned TryFrom<Vec>", langtag::$Buf::try_from(vec), v => v.as_bytes(), e => e.0 == b);
                if let Ok(s) = std::str::from_utf8(b) {
                    ensure!(
                        langtag::$T::validate_str(s) == expect,
                        if expect { INCOMPLETE } else { UNSOUND },
                        "{}::validate_str({}) = {}", N, show(b), !expect
                    );
                    verdict!("new(&str)", langtag::$T::new(s), v => v.as_str().as_bytes(), e => e.0 == s);
                    verdict!("from_str", langtag::$T::from_str(s), v => v.as_bytes(), e => e.0 == s);
                    verdict!("TryFrom<&str>", <&langtag::$T>::try_from(s), v => AsRef::<str>::as_ref(v).as_bytes(), e => e.0 == s);
                    let st = s.to_owned();
                    verdict!("owned new(String)", langtag::$Buf::new(st.clone()), v => v.as_str().as_bytes(), e => e.0 == s);
                    verdict!("owned from_string", langtag::$Buf::from_string(st.clone()), v => &v.into_bytes(), e => e.0 == s);
                    verdict!("owned TryFrom<String>", langtag::$Buf::try_from(st), v => &v.into_string().into_bytes(), e => e.0 == s);
                    verdict!("owned FromStr", s.parse::<langtag::$Buf>(), v => &String::from(v).into_bytes(), e => e.0 == s);
                    verdict!("to_owned", langtag::$T::new(s).map(|v| v.to_owned()), v => v.as_bytes(), e => e.0 == s);
                }
                Ok(())
            }
        }
    };
}

ty!(TTag, LangTag, LangTagBuf);
ty!(TNormal, NormalLangTag, NormalLangTagBuf);
ty!(TPrivateUse, PrivateUse, PrivateUseBuf);
ty!(TPrivateUseSubtag, PrivateUseSubtag, PrivateUseSubtagBuf);
ty!(TLanguage, Language, LanguageBuf);
ty!(TPrimary, PrimaryLanguage, PrimaryLanguageBuf);
ty!(TExtlang, LanguageExtension, LanguageExtensionBuf);
ty!(TExtlangTag, ExtendedLangTag, ExtendedLangTagBuf);
ty!(TScript, Script, ScriptBuf);
ty!(TRegion, Region, RegionBuf);
ty!(TVariant, Variant, VariantBuf);
ty!(TVariants, Variants, VariantsBuf);
ty!(TExtension, Extension, ExtensionBuf);
ty!(TExtensionSubtag, ExtensionSubtag, ExtensionSubtagBuf);
ty!(TExtensions, Extensions, ExtensionsBuf);

/// `dispatch!(kind, T => expr)` evaluates `expr` with `T` bound to the marker type.
#[macro_export]
macro_rules! dispatch {
    ($k:expr, $T:ident => $e:expr) => {{
        use $crate::kinds::*;
        use $crate::model::K;
        match $k {
            K::Tag => { type $T = TTag; $e }
            K::Normal => { type $T = TNormal; $e }
            K::PrivateUse => { type $T = TPrivateUse; $e }
            K::PrivateUseSubtag => { type $T = TPrivateUseSubtag; $e }
            K::Language => { type $T = TLanguage; $e }
            K::Primary => { type $T = TPrimary; $e }
            K::Extlang => { type $T = TExtlang; $e }
            K::ExtlangTag => { type $T = TExtlangTag; $e }
            K::Script => { type $T = TScript; $e }
            K::Region => { type $T = TRegion; $e }
            K::Variant => { type $T = TVariant; $e }
            K::Variants => { type $T = TVariants; $e }
            K::Extension => { type $T = TExtension; $e }
            K::ExtensionSubtag => { type $T = TExtensionSubtag; $e }
            K::Extensions => { type $T = TExtensions; $e }
        }
    }};
}
