//! Infallible stream adapters over one source, and consumers.
use super::*;
use futures::stream::{self, StreamExt};
use futures_util::{FutureExt, SinkExt};
use super::sinks::streamy as both;

fn p1(n: i64) -> Vec<(&'static str, i64)> { vec![("n", n), ("init", 0)] }
pub fn p0() -> Vec<(&'static str, i64)> { p1(0) }
fn s() -> Src<Pay> { src::<Pay>() }
/// `Either` and trait objects must behave like what they contain.
pub fn kinds() -> Vec<Kind> {
    vec![
        kf("map", "map", || { let g = pay(); (fst(s().map(move |p| { let _ = &g; ask::<Pay>("f", &[p.read()]) })), p0()) }),
        kf("inspect", "inspect", || { let g = pay(); (fst(s().inspect(move |p| { let _ = &g; ask::<()>("f", &[p.read()]) })), p0()) }),
        kf("enumerate", "enumerate", || (fst(s().enumerate()), p0())),
        kf("filter", "filter", || { let g = pay(); (fst(s().filter(move |p| { let _ = &g; ask::<SF<bool>>("f", &[p.read()]) })), p0()) }),
        kf("filter_map", "filter_map", || { let g = pay(); (fst(s().filter_map(move |p| { let _ = &g; ask::<SF<Option<Pay>>>("f", &[p.read()]) })), p0()) }),
        kf("then", "then", || { let g = pay(); (fst(s().then(move |p| { let _ = &g; ask::<SF<Pay>>("f", &[p.read()]) })), p0()) }),
        kf("skip_while", "skip_while", || { let g = pay(); (fst(s().skip_while(move |p| { let _ = &g; ask::<SF<bool>>("f", &[p.read()]) })), p0()) }),
        kf("take_while", "take_while", || { let g = pay(); (fst(s().take_while(move |p| { let _ = &g; ask::<SF<bool>>("f", &[p.read()]) })), p0()) }),
        kf("scan", "scan", || { let g = pay(); let i = pay(); let n = i.id; (fst(s().scan(i, move |a, p| { let _ = &g; ask::<SF<Option<(Pay, Pay)>>>("f", &[a.read(), p.read()]) })), vec![("n", 0), ("init", n)]) }),
        kr("take", "take", || { let n = below(4); (fst(s().take(n as usize)), p1(n as i64)) }),
        kf("skip", "skip", || { let n = below(4); (fst(s().skip(n as usize)), p1(n as i64)) }),
        kr("fuse", "id", || (fst(s().fuse()), p0())),
        kr("chunks", "chunks", || { let n = 1 + below(3); (fst(s().chunks(n as usize)), p1(n as i64)) }),
        kf("either", "id", || (if chance(10) { fst(s().left_stream::<Src<Pay>>()) } else { fst(s().right_stream::<Src<Pay>>()) }, p0())),
        ks("boxed", "id", || (if chance(10) { ust(s().boxed_local()) } else { ust(s().boxed()) }, p0())),
        kf("by_ref", "id", || (fst(Box::new(s())), p0())),
        kf("pinned", "id", || (fst(Box::pin(s())), p0())),
        ks("poll_fn", "id", || { let mut x = s(); (ust(stream::poll_fn(move |cx| Pin::new(&mut x).poll_next(cx))), p0()) }),
        // the stream half of sink adapters
        kf("stream_of_buffer", "id", || (fst(both().buffer(below(2) as usize)), p0())),
        kf("stream_of_with", "id", || (fst(both().with(|x: Pay| futures::future::ready(Ok::<Pay, Pay>(x)))), p0())),
        kf("stream_of_with_flat_map", "id", || (fst(both().with_flat_map(|x: Pay| stream::iter(vec![Ok::<Pay, Pay>(x)]))), p0())),
        kf("stream_of_map_err", "id", || (fst(both().sink_map_err(|e: Pay| e)), p0())),
        kf("stream_of_err_into", "id", || (fst(both().sink_err_into::<Pay>()), p0())),
        ks("next_unpin", "id", || { struct N(Src<Pay>); impl Stream for N { type Item = Pay; fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Pay>> { self.0.poll_next_unpin(cx) } } (ust(N(s())), p0()) }),
        // consumers
        kuf("fold", "fold", || { let g = pay(); let i = pay(); let n = i.id; (ffu(s().fold(i, move |a, p| { let _ = &g; ask::<SF<Pay>>("f", &[a.read(), p.read()]) })), vec![("n", 0), ("init", n)]) }),
        kuf("for_each", "for_each", || { let g = pay(); (ffu(s().for_each(move |p| { let _ = &g; ask::<SF<()>>("f", &[p.read()]) })), p0()) }),
        kuf("all", "all", || { let g = pay(); (ffu(s().all(move |p| { let _ = &g; ask::<SF<bool>>("f", &[p.read()]) })), p0()) }),
        kuf("any", "any", || { let g = pay(); (ffu(s().any(move |p| { let _ = &g; ask::<SF<bool>>("f", &[p.read()]) })), p0()) }),
        kuf("collect", "collect", || (ffu(s().collect::<Vec<_>>()), p0())),
        kuf("concat", "collect", || (ffu(s().map(|p| vec![p]).concat()), p0())),
        kuf("count", "count", || (ffu(s().count()), p0())),
        kuf("unzip", "unzip", || (ffu(s().map(|p| (p.clone(), p)).unzip::<Pay, Pay, Vec<_>, Vec<_>>()), p0())),
        ku("next", "next", || { let mut x = s(); (fu(async move { x.next().await }), p0()) }),
        // try_* consumers over plain streams: items of any type
        kuf("try_fold", "try_fold", || { let g = pay(); let i = pay(); let n = i.id; (ffu(s().try_fold(i, move |a, p| { let _ = &g; ask::<SF<Result<Pay, Pay>>>("f", &[a.read(), p.read()]) })), vec![("n", 0), ("init", n)]) }),
        ku("try_for_each", "try_for_each", || { let g = pay(); (fu(s().try_for_each(move |p| { let _ = &g; ask::<SF<Result<(), Pay>>>("f", &[p.read()]) })), p0()) }),
        ku("select_next_some", "next_some", || { let mut x = src_of::<Pay>({ let mut v = vec![]; gen_pends(&mut v); v.push(T::Item); v }); (fu(async move { x.select_next_some().await }), p0()) }),
        kuf("into_future", "next", || (ffu(Via(s().into_future(), |(a, rest)| { drop(rest); a })), p0())),
    ]
}
