// Stand-in for rayon: runs the closure on the items in an order that is not the order of the list, and keeps the results in list order.
pub mod iter {
    pub struct Par<T> { items: Vec<T> }
    pub trait IntoParallelIterator { type Item; fn into_par_iter(self) -> Par<Self::Item>; }
    impl<I: IntoIterator> IntoParallelIterator for I { type Item = I::Item; fn into_par_iter(self) -> Par<I::Item> { Par { items: self.into_iter().collect() } } }
    pub trait ParallelIterator: Sized {
        type Item;
        fn items(self) -> Vec<Self::Item>;
        fn map<R, F: Fn(Self::Item) -> R>(self, f: F) -> Par<R> {
            let mut items: Vec<Option<Self::Item>> = self.items().into_iter().map(Some).collect();
            let n = items.len();
            let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
            for k in (0..n).rev().step_by(2).chain((0..n).rev().skip(1).step_by(2)) { out[k] = Some(f(items[k].take().unwrap())); }
            Par { items: out.into_iter().map(|x| x.unwrap()).collect() }
        }
        fn collect<C: FromIterator<Self::Item>>(self) -> C { self.items().into_iter().collect() }
        fn for_each<F: Fn(Self::Item)>(self, f: F) { for x in self.items() { f(x) } }
    }
    impl<T> ParallelIterator for Par<T> { type Item = T; fn items(self) -> Vec<T> { self.items } }
}
