
#[allow(dead_code, unused, clippy::all)]
mod __xprs_threads {
    const fn shared<T: Sized + Send + Sync + Unpin>() {}
    const CTX: () = shared::<crate::Context<'_>>();
    const SYM: () = shared::<crate::Symbol>();
    const PAR: () = shared::<crate::Parser<'_>>();
    const FUN: () = shared::<crate::Function>();
    const XPR: () = shared::<crate::Xprs<'_>>();
    const PER: () = shared::<crate::ParseError>();
    const KIN: () = shared::<crate::ErrorKind>();
    const EVE: () = shared::<crate::EvalError>();
    const BIE: () = shared::<crate::BindError>();
    fn bound<'a>(x: crate::Xprs<'a>, v: &'a [&'a str]) {
        fn s<T: Send + Sync>(_: &T) {}
        if let Ok(f) = x.clone().bind("x") { s(&f); }
        if let Ok(f) = x.clone().bind2("x", "y") { s(&f); }
        if let Ok(f) = x.clone().bind3("x", "y", "z") { s(&f); }
        if let Ok(f) = x.clone().bind9("a", "b", "c", "d", "e", "f", "g", "h", "i") { s(&f); }
        if let Ok(f) = x.clone().bind_n(["x", "y"]) { s(&f); }
        if let Ok(f) = x.clone().bind_n_runtime(v) { s(&f); }
    }
}
