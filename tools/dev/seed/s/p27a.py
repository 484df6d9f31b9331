ID="p27-unbounded-twin"; PROP="P27"
NEEDS="a program that goes on with the bounded progress after it asked for an unbounded one"
BREAKS="The bound is discarded on a twin of the progress, so that one stream has two handles: one can report after the other has ended it."
EDITS=[("src/service/client/progress.rs",'''    pub fn into_unbounded(self) -> OngoingProgress<Unbounded, C> {
        OngoingProgress {
            client: self.client,
            token: self.token,
''','''    pub fn into_unbounded(&self) -> OngoingProgress<Unbounded, C> {
        OngoingProgress {
            client: self.client.clone(),
            token: self.token.clone(),
''')]
DEMO=r'''
mod common;
use common::*;
use tower_lsp::{Bounded, NotCancellable, OngoingProgress};
fn argument<A, R>(_: impl Fn(A) -> R) -> &'static str { std::any::type_name::<A>() }
fn main() {
    let arg = argument(OngoingProgress::<Bounded, NotCancellable>::into_unbounded);
    assert!(!arg.starts_with('&'), "progress survives the discarding of its bound: {arg}");
}
'''
