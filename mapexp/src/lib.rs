//! Uses of map_ref! / map_mut! in every form; their expansions are put under contract (verus/units/sig_ref.vu).
use futures_signals::{map_mut, map_ref, signal::Signal};
pub fn ref1<A: Signal, R>(a: A, mut f: impl FnMut(&A::Item) -> R) -> impl Signal<Item = R> { map_ref! { let x = a => f(x) } }
pub fn ref2<A: Signal, B: Signal, R>(a: A, b: B, mut f: impl FnMut(&A::Item, &B::Item) -> R) -> impl Signal<Item = R> { map_ref! { let x = a, let y = b => f(x, y) } }
pub fn ref3<A: Signal, B: Signal, C: Signal, R>(a: A, b: B, c: C, mut f: impl FnMut(&A::Item, &B::Item, &C::Item) -> R) -> impl Signal<Item = R> { map_ref! { let x = a, let y = b, let z = c => move f(x, y, z) } }
pub fn short2<A: Signal, B: Signal, R>(a: A, b: B, mut f: impl FnMut(&A::Item, &B::Item) -> R) -> impl Signal<Item = R> { map_ref!(a, b => f(a, b)) }
pub fn short3<A: Signal, B: Signal, C: Signal, R>(a: A, b: B, c: C, mut f: impl FnMut(&A::Item, &B::Item, &C::Item) -> R) -> impl Signal<Item = R> { map_ref!(a, b, c => f(a, b, c)) }
pub fn mut2<A: Signal, B: Signal, R>(a: A, b: B, mut f: impl FnMut(&mut A::Item, &mut B::Item) -> R) -> impl Signal<Item = R> { map_mut! { let x = a, let y = b => f(x, y) } }
