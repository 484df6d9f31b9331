"""Unusual Rust in places that no behaviour depends on: every check must read it and stay quiet."""
L="src/lib.rs"
ST="src/service/state.rs"
SV="src/service.rs"
END='''impl Debug for ServerState {'''
def at_end(code):
    return [(ST,END,code+"\n"+END)]
M=[
("z-consts","P14",0,at_end('''
#[allow(dead_code)]
mod zoo {
    const fn twice(n: usize) -> usize { n * 2 }
    const N: usize = twice(4) + 1;
    const NAMES: [&str; 2] = ["a", "b"];
    static TABLE: [u8; N] = [7; N];
    static FUNCTIONS: &[fn(u8) -> u8] = &[one, two];
    pub(super) const fn one(n: u8) -> u8 { n.wrapping_add(1) }
    fn two(n: u8) -> u8 { match n { LOW..=HIGH => 1, MIN => 2, _ => 3 } }
    const MIN: u8 = 0;
    const LOW: u8 = one(0);
    const HIGH: u8 = if LOW > 0 { 200 } else { 100 };
    struct Buf<const K: usize>([u8; K]);
    impl<const K: usize> Buf<K> {
        const SIZE: usize = K + N;
        fn sum(&self) -> usize { self.0.iter().map(|b| *b as usize).sum::<usize>() + Self::SIZE + const { K * 2 } }
    }
    trait Named { const NAME: &'static str; fn name(&self) -> &'static str { Self::NAME } }
    impl<const K: usize> Named for Buf<K> { const NAME: &'static str = NAMES[0]; }
    thread_local! { static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
    static ONCE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    fn all() -> usize {
        let s = match NAMES { ["a", ..] => 1, _ => 0 };
        DEPTH.with(|d| d.set(d.get() + 1));
        let o = ONCE.get_or_init(|| Buf([0; N]).name().to_string());
        s + TABLE.len() + FUNCTIONS.len() + Buf([0; twice(2)]).sum() + o.len()
    }
}''')),
("z-control","P14",0,at_end('''
#[allow(dead_code)]
mod zoo {
    enum Tree<T> { Leaf(T), Node(Box<Tree<T>>, Box<Tree<T>>) }
    fn depth<T>(t: &Tree<T>) -> u128 {
        match t { Tree::Leaf(_) => 1, Tree::Node(a, b) => 1 + depth(a).max(depth(b)) }
    }
    fn words(s: &str) -> Option<(char, f64)> {
        let Some(c @ ('a'..='z' | 'A'..='Z')) = s.chars().next() else { return None };
        let n = 'outer: {
            for (i, w) in s.split(' ').enumerate() {
                if w.is_empty() { continue; }
                if i > 3 { break 'outer i as f64 * 0.5; }
            }
            -1.0
        };
        Some((c, n))
    }
    fn slices(v: &mut [i128]) -> i128 {
        match v { [] => 0, [x] => *x, [a, .., b] if a == b => { std::mem::swap(a, b); *a } [a, rest @ ..] => *a + slices(rest) }
    }
    fn dynamic<'a>(f: &'a dyn Fn(u8) -> u8) -> impl Iterator<Item = Box<dyn Fn() -> u8 + 'a>> {
        (0..3u8).map(move |n| Box::new(move || f(n)) as Box<dyn Fn() -> u8 + 'a>)
    }
    fn bits(f: f32) -> u32 { f.to_bits() }
    struct Guard<'a>(&'a mut Vec<u8>);
    impl Drop for Guard<'_> { fn drop(&mut self) { self.0.clear(); } }
    macro_rules! many { ($($n:ident => $e:expr),*) => { $(fn $n(x: u64) -> u64 { $e + x })* } }
    many!(first => 1, second => first(2));
    fn fallible(s: &str) -> Result<u8, Box<dyn std::error::Error + Send + Sync>> {
        let n = (|| s.trim().parse::<u8>())()?;
        if n > 3 { return Err("big".into()); }
        Ok(n)
    }
    async fn waits(mut n: u32) -> u32 {
        while n > 0 {
            let step = async { n / 2 };
            n = step.await;
            if n == 7 { return 1; }
        }
        let c = async |x: u32| x + n;
        c(3).await
    }
    fn all(v: &mut Vec<u8>) { let g = Guard(v); g.0.push(1); drop(g); let _ = (words("a"), slices(&mut [1, 2]), bits(1.0), second(1), fallible("1"), waits(3), dynamic(&|x| x).count(), depth(&Tree::Node(Box::new(Tree::Leaf(1)), Box::new(Tree::Leaf(2))))); }
}''')),
("z-traits","P14",0,at_end('''
#[allow(dead_code)]
mod zoo {
    use std::fmt::Display;
    use std::future::Future;
    use std::ops::{Deref, Index, Add};
    trait Animal { fn name(&self) -> String; fn loud(&self) -> String where Self: Sized + Display { format!("{self:>5}!") } }
    trait Super: Animal + Send { }
    struct Dog { age: u8 }
    impl Animal for Dog { fn name(&self) -> String { format!("{:03}-{name}", self.age, name = "dog") } }
    impl Super for Dog {}
    fn up(b: Box<dyn Super>) -> Box<dyn Animal> { b }
    impl Deref for Dog { type Target = u8; fn deref(&self) -> &u8 { &self.age } }
    impl Index<&str> for Dog { type Output = u8; fn index(&self, _: &str) -> &u8 { &self.age } }
    impl<'a> Add<&'a Dog> for Dog { type Output = Dog; fn add(self, o: &'a Dog) -> Dog { Dog { age: self.age.saturating_add(o.age) } } }
    trait Lend { type Item<'a> where Self: 'a; fn lend<'a>(&'a mut self) -> Option<Self::Item<'a>>; }
    impl Lend for Vec<u8> { type Item<'a> = &'a mut u8; fn lend<'a>(&'a mut self) -> Option<&'a mut u8> { self.last_mut() } }
    fn ends<L: Lend>(mut l: L) -> bool where for<'a> L::Item<'a>: Sized { l.lend().is_some() }
    trait Work { fn work(&self) -> impl Future<Output = u8> + Send; async fn more(&self) -> u8 { self.work().await } }
    impl Work for Dog { async fn work(&self) -> u8 { self.age } }
    fn compose<A, B, C>(f: impl Fn(A) -> B, g: impl Fn(B) -> C) -> impl Fn(A) -> C { move |x| g(f(x)) }
    fn count<T>(it: impl IntoIterator<Item = T>) -> usize { let mut n = 0; for _ in it { n += 1 } n }
    #[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct Rec { a: u8, b: Option<Box<Rec>>, c: std::borrow::Cow<'static, str>, d: std::collections::BTreeMap<String, [u16; 3]> }
    #[derive(serde::Serialize, serde::Deserialize)]
    #[serde(tag = "t", rename_all = "camelCase")]
    enum Msg { OneThing { x: u8 }, Other(Inner) }
    #[derive(serde::Serialize, serde::Deserialize)]
    struct Inner { #[serde(default)] y: Vec<i64> }
    fn all() { let d = Dog { age: 1 } + &Dog { age: 2 }; let _ = (d["x"], *d, ends(vec![1]), up(Box::new(d)).name(), compose(|x: u8| x, |y| y)(1), count([1, 2]), Rec::default() == Rec::default(), serde_json::to_value(Msg::OneThing { x: 1 }).is_ok()); }
}''')),
]
