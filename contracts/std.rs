// Assumed contracts of standard-library functions vstd does not cover. A block is put into a unit only when the
// extracted code calls the function it names.
//@ std map_or
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)) ensures match o { Some(x) => f.ensures((x,), r), None => r == d };
//@ std map_or_else
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else] (o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(()) ensures match o { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };
//@ std filter
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, p: P) -> (r: Option<T>)
    requires o is Some ==> p.requires((&o->0,)) ensures match o { Some(x) => match r { Some(y) => y == x && p.ensures((&x,), true), None => p.ensures((&x,), false) }, None => r is None };
//@ std or
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == if o is Some { o } else { p };
//@ std or_else
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()) ensures match o { Some(x) => r == o, None => f.ensures((), r) };
pub assume_specification<T, E, G, O: FnOnce(E) -> Result<T, G>> [Result::<T, E>::or_else] (s: Result<T, E>, f: O) -> (r: Result<T, G>)
    requires s is Err ==> f.requires((s->Err_0,)) ensures match s { Ok(x) => r == Ok::<T, G>(x), Err(e) => f.ensures((e,), r) };
//@ std is_some_and
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)) ensures match o { Some(x) => f.ensures((x,), r), None => !r };
//@ std is_none_or
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or] (o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)) ensures match o { Some(x) => f.ensures((x,), r), None => r };
//@ std zip
pub assume_specification<T, U> [Option::<T>::zip] (o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>) ensures r == if o is Some && p is Some { Some((o->0, p->0)) } else { None };
//@ std re:\w\.replace\(
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
//@ std re:mem::replace\(
pub assume_specification<T> [core::mem::replace::<T>] (o: &mut T, v: T) -> (r: T) ensures r == *old(o), *final(o) == v;
//@ std copied
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>) ensures r == match o { Some(x) => Some(*x), None => None };
//@ std and_then
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (s: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires s is Ok ==> f.requires((s->Ok_0,)) ensures match s { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
//@ std unwrap_or
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (s: Result<T, E>, d: T) -> (r: T) ensures r == match s { Ok(x) => x, Err(_) => d };
//@ std unwrap_or_else
pub assume_specification<T, E, F: FnOnce(E) -> T> [Result::<T, E>::unwrap_or_else] (s: Result<T, E>, f: F) -> (r: T)
    requires s is Err ==> f.requires((s->Err_0,)) ensures match s { Ok(x) => r == x, Err(e) => f.ensures((e,), r) };
//@ std is_ok_and
pub assume_specification<T, E, F: FnOnce(T) -> bool> [Result::<T, E>::is_ok_and] (s: Result<T, E>, f: F) -> (r: bool)
    requires s is Ok ==> f.requires((s->Ok_0,)) ensures match s { Ok(x) => f.ensures((x,), r), Err(_) => !r };
//@ std is_err_and
pub assume_specification<T, E, F: FnOnce(E) -> bool> [Result::<T, E>::is_err_and] (s: Result<T, E>, f: F) -> (r: bool)
    requires s is Err ==> f.requires((s->Err_0,)) ensures match s { Err(x) => f.ensures((x,), r), Ok(_) => !r };
//@ std split_last
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r { None => s@.len() == 0, Some((x, y)) => s@.len() > 0 && *x == s@.last() && y@ == s@.drop_last() };
//@ std fill
pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], v: T) ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> #[trigger] final(s)@[i] == v;      // plain data: a clone is equal
//@ std to_vec
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@ == s@;      // plain data: a clone is equal
//@ std then_some
pub assume_specification<T> [bool::then_some] (b: bool, v: T) -> (r: Option<T>) ensures r == if b { Some(v) } else { None };
//@ std abs_diff
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { b - a };
pub assume_specification [u32::abs_diff] (a: u32, b: u32) -> (r: u32) ensures r == if a >= b { a - b } else { b - a };
//@ std div_ceil
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == if a % b == 0 { (a / b) as int } else { a / b + 1 };
//@ std re:pending\.is_empty\(
pub assume_specification<T, A: std::alloc::Allocator> [std::collections::VecDeque::<T, A>::is_empty] (v: &std::collections::VecDeque<T, A>) -> (r: bool) ensures r == (v@.len() == 0);
//@ std re:(?<![\w.])(?:(?:core|std)::mem::)?drop\(
pub assume_specification<T> [core::mem::drop::<T>] (t: T);
//@ std re:mem::take\(
pub assume_specification<T: Default> [core::mem::take::<T>] (o: &mut T) -> (r: T) ensures r == *old(o), call_ensures(T::default, (), *final(o));
//@ std re:vx_(min|max)\(
pub trait VxMin: Sized { fn vx_min(self, o: Self) -> Self; fn vx_max(self, o: Self) -> Self; }
impl VxMin for u8 { fn vx_min(self, o: u8) -> (r: u8) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } } fn vx_max(self, o: u8) -> (r: u8) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } } }
impl VxMin for u16 { fn vx_min(self, o: u16) -> (r: u16) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } } fn vx_max(self, o: u16) -> (r: u16) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } } }
impl VxMin for u32 { fn vx_min(self, o: u32) -> (r: u32) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } } fn vx_max(self, o: u32) -> (r: u32) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } } }
impl VxMin for u64 { fn vx_min(self, o: u64) -> (r: u64) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } } fn vx_max(self, o: u64) -> (r: u64) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } } }
impl VxMin for usize { fn vx_min(self, o: usize) -> (r: usize) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } } fn vx_max(self, o: usize) -> (r: usize) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } } }
impl VxMin for i32 { fn vx_min(self, o: i32) -> (r: i32) ensures r == if self <= o { self } else { o } { if self <= o { self } else { o } } fn vx_max(self, o: i32) -> (r: i32) ensures r == if self >= o { self } else { o } { if self >= o { self } else { o } } }
