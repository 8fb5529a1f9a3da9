//! The consumers of core::iter as loops over `next` (their documented meaning).  prelude.mir is this file's MIR
//! (rustc +1.85.0 --edition 2021 --crate-type lib --emit=mir -C overflow-checks=on prelude.rs).
pub fn any<ItI: Iterator, ItF: FnMut(ItI::Item) -> bool>(mut it: ItI, mut f: ItF) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn all<ItI: Iterator, ItF: FnMut(ItI::Item) -> bool>(mut it: ItI, mut f: ItF) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn find<ItI: Iterator, ItF: FnMut(&ItI::Item) -> bool>(mut it: ItI, mut f: ItF) -> Option<ItI::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<ItI: Iterator, ItB, ItF: FnMut(ItI::Item) -> Option<ItB>>(mut it: ItI, mut f: ItF) -> Option<ItB> {
    while let Some(x) = it.next() {
        let r = f(x);
        if r.is_some() {
            return r;
        }
    }
    None
}
pub fn position<ItI: Iterator, ItF: FnMut(ItI::Item) -> bool>(mut it: ItI, mut f: ItF) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn for_each<ItI: Iterator, ItF: FnMut(ItI::Item)>(mut it: ItI, mut f: ItF) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn fold<ItI: Iterator, ItB, ItF: FnMut(ItB, ItI::Item) -> ItB>(mut it: ItI, init: ItB, mut f: ItF) -> ItB {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn try_fold<ItI: Iterator, ItB, ItE, ItF: FnMut(ItB, ItI::Item) -> Result<ItB, ItE>>(mut it: ItI, init: ItB, mut f: ItF) -> Result<ItB, ItE> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Ok(v) => acc = v,
            Err(e) => return Err(e),
        }
    }
    Ok(acc)
}
pub fn try_for_each<ItI: Iterator, ItE, ItF: FnMut(ItI::Item) -> Result<(), ItE>>(mut it: ItI, mut f: ItF) -> Result<(), ItE> {
    while let Some(x) = it.next() {
        match f(x) {
            Ok(()) => (),
            Err(e) => return Err(e),
        }
    }
    Ok(())
}

// ---- Option, Result, bool, ranges: `Type_method`
pub fn Option_is_some_and<T, ItF: FnOnce(T) -> bool>(o: Option<T>, f: ItF) -> bool {
    match o {
        Some(x) => f(x),
        None => false,
    }
}
pub fn Option_is_none_or<T, ItF: FnOnce(T) -> bool>(o: Option<T>, f: ItF) -> bool {
    match o {
        Some(x) => f(x),
        None => true,
    }
}
pub fn Option_map_or_else<T, ItB, ItD: FnOnce() -> ItB, ItF: FnOnce(T) -> ItB>(o: Option<T>, d: ItD, f: ItF) -> ItB {
    match o {
        Some(x) => f(x),
        None => d(),
    }
}
pub fn Option_and<T, ItB>(o: Option<T>, p: Option<ItB>) -> Option<ItB> {
    match o {
        Some(_) => p,
        None => None,
    }
}
pub fn Option_or_else<T, ItF: FnOnce() -> Option<T>>(o: Option<T>, f: ItF) -> Option<T> {
    match o {
        Some(x) => Some(x),
        None => f(),
    }
}
pub fn Option_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match (o, p) {
        (Some(a), None) => Some(a),
        (None, Some(b)) => Some(b),
        _ => None,
    }
}
pub fn Option_zip<T, ItB>(o: Option<T>, p: Option<ItB>) -> Option<(T, ItB)> {
    match (o, p) {
        (Some(a), Some(b)) => Some((a, b)),
        _ => None,
    }
}
pub fn Option_filter<T, ItF: FnOnce(&T) -> bool>(o: Option<T>, f: ItF) -> Option<T> {
    match o {
        Some(x) => {
            if f(&x) {
                Some(x)
            } else {
                None
            }
        }
        None => None,
    }
}
pub fn Option_flatten<T>(o: Option<Option<T>>) -> Option<T> {
    match o {
        Some(x) => x,
        None => None,
    }
}
pub fn Option_transpose<T, ItE>(o: Option<Result<T, ItE>>) -> Result<Option<T>, ItE> {
    match o {
        Some(Ok(x)) => Ok(Some(x)),
        Some(Err(e)) => Err(e),
        None => Ok(None),
    }
}
pub fn Option_inspect<T, ItF: FnOnce(&T)>(o: Option<T>, f: ItF) -> Option<T> {
    match o {
        Some(x) => {
            f(&x);
            Some(x)
        }
        None => None,
    }
}
pub fn Result_is_ok_and<T, ItE, ItF: FnOnce(T) -> bool>(r: Result<T, ItE>, f: ItF) -> bool {
    match r {
        Ok(x) => f(x),
        Err(_) => false,
    }
}
pub fn Result_is_err_and<T, ItE, ItF: FnOnce(ItE) -> bool>(r: Result<T, ItE>, f: ItF) -> bool {
    match r {
        Ok(_) => false,
        Err(e) => f(e),
    }
}
pub fn Result_map_or_else<T, ItE, ItB, ItD: FnOnce(ItE) -> ItB, ItF: FnOnce(T) -> ItB>(r: Result<T, ItE>, d: ItD, f: ItF) -> ItB {
    match r {
        Ok(x) => f(x),
        Err(e) => d(e),
    }
}
pub fn Result_and<T, ItE, ItB>(r: Result<T, ItE>, s: Result<ItB, ItE>) -> Result<ItB, ItE> {
    match r {
        Ok(_) => s,
        Err(e) => Err(e),
    }
}
pub fn Result_or<T, ItE, ItB>(r: Result<T, ItE>, s: Result<T, ItB>) -> Result<T, ItB> {
    match r {
        Ok(x) => Ok(x),
        Err(_) => s,
    }
}
pub fn Result_or_else<T, ItE, ItB, ItF: FnOnce(ItE) -> Result<T, ItB>>(r: Result<T, ItE>, f: ItF) -> Result<T, ItB> {
    match r {
        Ok(x) => Ok(x),
        Err(e) => f(e),
    }
}
pub fn Result_inspect<T, ItE, ItF: FnOnce(&T)>(r: Result<T, ItE>, f: ItF) -> Result<T, ItE> {
    match r {
        Ok(x) => {
            f(&x);
            Ok(x)
        }
        Err(e) => Err(e),
    }
}
pub fn bool_then<T, ItF: FnOnce() -> T>(b: bool, f: ItF) -> Option<T> {
    if b {
        Some(f())
    } else {
        None
    }
}
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> {
    if b {
        Some(x)
    } else {
        None
    }
}
