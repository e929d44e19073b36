//! Fallible stream adapters over one source, and consumers.
use super::st::p0;
use super::*;
use futures::stream::{TryChunksError, TryStreamExt};

type RP = Result<Pay, Pay>;
fn s() -> Src<RP> { src::<RP>() }
impl<A: Show, B: Show> Show for TryChunksError<A, B> { fn show(&self) -> Vec<i64> { let mut v = self.0.show(); v.extend(self.1.show()); v } }
pub struct Conv(Pay);
impl From<Pay> for Conv { fn from(p: Pay) -> Conv { Conv(p) } }
impl Show for Conv { fn show(&self) -> Vec<i64> { self.0.show() } }
pub fn kinds() -> Vec<Kind> {
    vec![
        kf("map_ok", "map_ok", || { let g = pay(); (fst(s().map_ok(move |p| { let _ = &g; ask::<Pay>("f", &[p.read()]) })), p0()) }),
        kf("map_err", "map_err", || { let g = pay(); (fst(s().map_err(move |p| { let _ = &g; ask::<Pay>("f", &[p.read()]) })), p0()) }),
        kf("inspect_ok", "inspect_ok", || { let g = pay(); (fst(s().inspect_ok(move |p| { let _ = &g; ask::<()>("f", &[p.read()]) })), p0()) }),
        kf("inspect_err", "inspect_err", || { let g = pay(); (fst(s().inspect_err(move |p| { let _ = &g; ask::<()>("f", &[p.read()]) })), p0()) }),
        kf("err_into", "tid", || (fst(s().err_into::<Conv>()), p0())),
        kf("into_stream", "tid", || (fst(s().into_stream()), p0())),
        kf("and_then", "and_then", || { let g = pay(); (fst(s().and_then(move |p| { let _ = &g; ask::<SF<RP>>("f", &[p.read()]) })), p0()) }),
        kf("or_else", "or_else", || { let g = pay(); (fst(s().or_else(move |p| { let _ = &g; ask::<SF<RP>>("f", &[p.read()]) })), p0()) }),
        kf("try_filter", "try_filter", || { let g = pay(); (fst(s().try_filter(move |p| { let _ = &g; ask::<SF<bool>>("f", &[p.read()]) })), p0()) }),
        kf("try_filter_map", "try_filter_map", || { let g = pay(); (fst(s().try_filter_map(move |p| { let _ = &g; ask::<SF<Result<Option<Pay>, Pay>>>("f", &[p.read()]) })), p0()) }),
        kf("try_skip_while", "try_skip_while", || { let g = pay(); (fst(s().try_skip_while(move |p| { let _ = &g; ask::<SF<Result<bool, Pay>>>("f", &[p.read()]) })), p0()) }),
        kf("try_take_while", "try_take_while", || { let g = pay(); (fst(s().try_take_while(move |p| { let _ = &g; ask::<SF<Result<bool, Pay>>>("f", &[p.read()]) })), p0()) }),
        kr("try_chunks", "try_chunks", || { let n = 1 + below(3); (fst(s().try_chunks(n as usize)), vec![("n", n as i64), ("init", 0)]) }),
        kuf("try_collect", "try_collect", || (ffu(s().try_collect::<Vec<_>>()), p0())),
        ku("try_concat", "try_collect", || (fu(s().map_ok(|p| vec![p]).try_concat()), p0())),
        kuf("try_all", "try_all", || { let g = pay(); (ffu(s().try_all(move |p| { let _ = &g; ask::<SF<bool>>("f", &[p.read()]) })), p0()) }),
        kuf("try_any", "try_any", || { let g = pay(); (ffu(s().try_any(move |p| { let _ = &g; ask::<SF<bool>>("f", &[p.read()]) })), p0()) }),
        ku("try_next", "try_next", || (ffu(Lent::new(s(), |x| x.try_next())), p0())),
    ]
}
