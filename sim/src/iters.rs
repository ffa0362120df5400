//! Object-safe views of the library's iterators, and the driver that checks them step by step.

use crate::alloc::{InLib, OutLib};
use crate::ensure;
use crate::world::{self, Cb, Out, Res, Viol, attempt, cb, go};
use std::collections::BTreeMap;
use std::fmt::Debug;

/// What an iterator yielded, in model terms.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Item {
    pub k: Option<(u64, u64)>,
    pub v: Option<u64>,
    /// address of the value, for mutable references
    pub addr: usize,
    /// the new value the caller wrote through a mutable reference
    pub wrote: u64,
}

pub trait SimIter<'a> {
    fn next(&mut self) -> Option<Item>;
    fn hint(&self) -> (usize, Option<usize>);
    fn exact_len(&self) -> Option<usize>;
    fn clone_box(&self) -> Option<Box<dyn SimIter<'a> + 'a>>;
    fn nth(&mut self, n: usize) -> Option<Item>;
    fn fold(self: Box<Self>, f: &mut dyn FnMut(Item));
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Item>;
    fn debug(&self) -> Option<String>;
    fn collect_take(&mut self, n: usize) -> Vec<Item>;
    fn all(&mut self, stop: usize) -> Vec<Item>;
}

macro_rules! common {
    () => {
        fn next(&mut self) -> Option<Item> {
            go();
            let x = {
                let _g = InLib::enter();
                self.it.next()
            };
            x.map(&self.f)
        }
        fn hint(&self) -> (usize, Option<usize>) {
            go();
            let _g = InLib::enter();
            self.it.size_hint()
        }
        fn nth(&mut self, n: usize) -> Option<Item> {
            go();
            let x = {
                let _g = InLib::enter();
                self.it.nth(n)
            };
            x.map(&self.f)
        }
        fn fold(self: Box<Self>, g: &mut dyn FnMut(Item)) {
            let Self { it, f, .. } = *self;
            go();
            let _g = InLib::enter();
            it.fold((), |(), x| {
                let _o = OutLib::enter();
                g(f(x))
            });
        }
        fn count(self: Box<Self>) -> usize {
            let it = self.it;
            go();
            let _g = InLib::enter();
            it.count()
        }
        fn last(self: Box<Self>) -> Option<Item> {
            let Self { it, f, .. } = *self;
            go();
            let x = {
                let _g = InLib::enter();
                it.last()
            };
            x.map(f)
        }
        fn collect_take(&mut self, n: usize) -> Vec<Item> {
            let f = &self.f;
            go();
            let mut v = Vec::new();
            let _g = InLib::enter();
            for x in self.it.by_ref().take(n) {
                let _o = OutLib::enter();
                v.push(f(x));
            }
            v
        }
        fn all(&mut self, stop: usize) -> Vec<Item> {
            let f = &self.f;
            go();
            let mut v = Vec::new();
            let _g = InLib::enter();
            let _ = self.it.all(|x| {
                let _o = OutLib::enter();
                v.push(f(x));
                v.len() < stop
            });
            v
        }
    };
}

/// Iterators that report an exact length and cannot be cloned.
pub struct Plain<I, F> {
    pub it: I,
    pub f: F,
    pub dbg: fn(&I) -> String,
}
impl<'a, I: Iterator + ExactSizeIterator + 'a, F: Fn(I::Item) -> Item + Copy + 'a> SimIter<'a> for Plain<I, F> {
    common!();
    fn exact_len(&self) -> Option<usize> {
        go();
        let _g = InLib::enter();
        Some(self.it.len())
    }
    fn clone_box(&self) -> Option<Box<dyn SimIter<'a> + 'a>> {
        None
    }
    fn debug(&self) -> Option<String> {
        go();
        let _g = InLib::enter();
        Some((self.dbg)(&self.it))
    }
}

/// Iterators that report an exact length and can be cloned.
pub struct Cloneable<I, F> {
    pub it: I,
    pub f: F,
}
impl<'a, I: Iterator + ExactSizeIterator + Clone + Debug + 'a, F: Fn(I::Item) -> Item + Copy + 'a> SimIter<'a> for Cloneable<I, F> {
    common!();
    fn exact_len(&self) -> Option<usize> {
        go();
        let _g = InLib::enter();
        Some(self.it.len())
    }
    fn clone_box(&self) -> Option<Box<dyn SimIter<'a> + 'a>> {
        go();
        let it = {
            let _g = InLib::enter();
            self.it.clone()
        };
        Some(Box::new(Self { it, f: self.f }))
    }
    fn debug(&self) -> Option<String> {
        go();
        let _g = InLib::enter();
        Some(format!("{:?}", self.it))
    }
}

/// Set-operation iterators: no exact length.
pub struct Inexact<I, F> {
    pub it: I,
    pub f: F,
}
impl<'a, I: Iterator + Clone + Debug + 'a, F: Fn(I::Item) -> Item + Copy + 'a> SimIter<'a> for Inexact<I, F> {
    common!();
    fn exact_len(&self) -> Option<usize> {
        None
    }
    fn clone_box(&self) -> Option<Box<dyn SimIter<'a> + 'a>> {
        go();
        let it = {
            let _g = InLib::enter();
            self.it.clone()
        };
        Some(Box::new(Self { it, f: self.f }))
    }
    fn debug(&self) -> Option<String> {
        go();
        let _g = InLib::enter();
        Some(format!("{:?}", self.it))
    }
}

/// What an iterator may still yield.
#[derive(Clone, Debug, Default)]
pub struct Expect {
    /// items not seen yet, with multiplicity
    left: BTreeMap<(Option<u64>, Option<u64>), u64>,
    /// the sum of it
    count: u64,
    /// how many of `left` were skipped without being seen
    pub skipped: u64,
    /// the exact tag each key must carry, if tags are checked
    pub tags: Option<BTreeMap<u64, u64>>,
    /// the size report must be exact
    pub exact: bool,
    pub done: bool,
}

impl Expect {
    pub fn total(&self) -> u64 {
        self.count - self.skipped
    }
    pub fn add(&mut self, k: Option<u64>, v: Option<u64>) {
        *self.left.entry((k, v)).or_default() += 1;
        self.count += 1;
    }
    pub fn take(&mut self, what: &str, i: &Item) -> Res {
        let key = (i.k.map(|k| k.0), i.v);
        match self.left.get_mut(&key) {
            Some(n) if *n > 0 => {
                *n -= 1;
                self.count -= 1;
                if *n == 0 {
                    self.left.remove(&key);
                }
            }
            _ => {
                return Err(Viol::new(
                    "iter:item",
                    format!("{what} yielded key {:?} value {:?}, which it had already yielded or which is not in the collection", key.0, key.1),
                ));
            }
        }
        if let (Some(t), Some((id, tag))) = (&self.tags, i.k) {
            ensure!(t.get(&id) == Some(&tag), "iter:stale-key", "{what} yielded key {id} from entry {tag}, not from the last entry supplied for it");
        }
        Ok(())
    }
    pub fn yielded(&mut self, what: &str, x: Option<Item>) -> Res {
        let total = self.total();
        match x {
            Some(i) => {
                ensure!(total > 0, "iter:extra", "{what} yielded an item after all items were accounted for");
                self.take(what, &i)?;
                ensure!(!self.done, "iter:resumed", "{what} yielded an item after reporting its end");
            }
            None => {
                ensure!(total == 0, "iter:lost", "{what} ended with {total} items still to come");
                self.done = true;
            }
        }
        Ok(())
    }
    pub fn size(&self, what: &str, h: (usize, Option<usize>), len: Option<usize>) -> Res {
        let t = self.total() as usize;
        ensure!(h.0 <= t && h.1.is_none_or(|u| u >= t), "iter:size", "{what} reports size {h:?} with {t} items still to come");
        if self.exact {
            ensure!(h == (t, Some(t)), "iter:size", "{what} reports inexact size {h:?} with {t} items still to come");
        }
        if let Some(l) = len {
            ensure!(l == t, "iter:len", "{what} reports length {l} with {t} items still to come");
        }
        Ok(())
    }
}

pub struct Driven<'a> {
    pub it: Option<Box<dyn SimIter<'a> + 'a>>,
    pub ex: Expect,
    pub name: String,
    /// effects of mutable iteration are reported here: (old value, new value)
    pub writes: Vec<(Item, u64)>,
}

/// Drives several iterators through a script; every step is checked. `max_live` bounds clones.
/// Steps: the low bits pick the iterator, the rest the action.
pub fn drive(its: &mut Vec<Driven<'_>>, script: &[u64], max_live: usize) -> Res<u64> {
    let mut steps = 0;
    let mut addrs = std::collections::BTreeSet::new();
    for s in script {
        if its.iter().all(|d| d.it.is_none()) {
            break;
        }
        steps += 1;
        let live: Vec<usize> = (0..its.len()).filter(|i| its[*i].it.is_some()).collect();
        let i = live[(s & 0xff) as usize % live.len()];
        let arg = (s >> 16) as usize;
        let action = (s >> 8) & 0xff;
        step(its, i, action, arg, max_live, &mut addrs)?;
    }
    Ok(steps)
}

fn step(its: &mut Vec<Driven<'_>>, i: usize, action: u64, arg: usize, max_live: usize, addrs: &mut std::collections::BTreeSet<usize>) -> Res {
    let d = &mut its[i];
    let name = d.name.clone();
    let mut record = |d: &mut Driven<'_>, x: &Item| -> Res {
        if x.addr != 0 {
            ensure!(addrs.insert(x.addr), "iter:aliased", "{name} handed out the same value twice for writing");
            d.writes.push((*x, x.wrote));
        }
        Ok(())
    };
    let it = d.it.as_mut().unwrap();
    // when a destructor panics inside Iterator::last, the compiler itself loses the value being returned
    let drops = world::ctl().fault_class.get() == Cb::Drop as usize;
    let action = if drops && action % 16 == 10 { 0 } else { action };
    match action % 16 {
        0..=5 => {
            let x = it.next();
            world::log(|| format!("{name}.next -> {:?}", x.map(|y| (y.k.map(|k| k.0), y.v))));
            if let Some(y) = &x {
                record(d, y)?;
            }
            d.ex.yielded(&name, x)?;
        }
        6 => {
            let n = match arg % 9 {
                5 => 60 + arg % 9,
                6 => 1000,
                7 => usize::MAX,
                8 => usize::MAX / 2 + 1,
                n => n,
            };
            let before = d.ex.total();
            let x = it.nth(n);
            if before > n as u64 {
                ensure!(x.is_some(), "iter:lost", "{name}.nth({n}) found nothing with {before} items to come");
                if let Some(y) = &x {
                    record(d, y)?;
                }
                d.ex.skipped += n as u64;
                d.ex.take(&name, &x.unwrap())?;
            } else {
                ensure!(x.is_none(), "iter:extra", "{name}.nth({n}) found an item with only {before} items to come");
                d.ex.skipped += before;
                d.ex.done = true;
            }
            world::log(|| format!("{name}.nth({n})"));
        }
        7 => {
            if its.len() < max_live {
                let c = its[i].it.as_ref().unwrap().clone_box();
                if let Some(c) = c {
                    let ex = its[i].ex.clone();
                    world::log(|| format!("{name}.clone"));
                    its.push(Driven { it: Some(c), ex, name: format!("{name}'"), writes: Vec::new() });
                }
            }
        }
        8 => {
            // consume the rest by folding, possibly cut by a panic in the closure
            let it = d.it.take().unwrap();
            let cut = arg % 7;
            let total = d.ex.total();
            let mut got: Vec<Item> = Vec::new();
            let out = attempt(|| {
                it.fold(&mut |x| {
                    got.push(x);
                    cb(Cb::Closure);
                    if got.len() == cut {
                        std::panic::panic_any(world::SimPanic::Fault(Cb::Closure as usize));
                    }
                })
            })?;
            for x in &got {
                record(d, x)?;
                d.ex.take(&format!("{name}.fold"), x)?;
            }
            match out {
                Out::Ok(()) => ensure!(d.ex.total() == 0, "iter:lost", "{name}.fold visited {} of {total} items", got.len()),
                Out::Fault => {
                    if !(cut != 0 && got.len() == cut) || world::fired() {
                        world::log(|| format!("{name}.fold interrupted"));
                        std::panic::panic_any(world::SimPanic::Fault(Cb::Closure as usize));
                    } else {
                        world::ctl().run_fired[Cb::Closure as usize].set(world::ctl().run_fired[Cb::Closure as usize].get() + 1);
                    }
                }
                o => {
                    world::must("fold", o)?;
                }
            }
            world::log(|| format!("{name}.fold cut={cut} -> {}", got.len()));
        }
        9 => {
            let it = d.it.take().unwrap();
            let t = d.ex.total() as usize;
            let n = it.count();
            world::log(|| format!("{name}.count -> {n}"));
            ensure!(n == t, "iter:count", "{name}.count() is {n} with {t} items to come");
        }
        10 => {
            let it = d.it.take().unwrap();
            let t = d.ex.total();
            let x = it.last();
            world::log(|| format!("{name}.last"));
            ensure!(x.is_some() == (t > 0), "iter:last", "{name}.last() is {x:?} with {t} items to come");
            if let Some(y) = x {
                record(d, &y)?;
                d.ex.take(&name, &y)?;
            }
        }
        11 => {
            // abandon it
            world::log(|| format!("{name} dropped"));
            let it = d.it.take();
            let _g = InLib::enter();
            drop(it);
        }
        12 => {
            let s = it.debug();
            world::log(|| format!("{name} debug {}", s.as_ref().map_or(0, String::len)));
        }
        13 => {
            let n = arg % 6;
            let t = d.ex.total() as usize;
            let v = it.collect_take(n);
            ensure!(v.len() == n.min(t), "iter:lost", "{name}.take({n}) gave {} items with {t} to come", v.len());
            for x in &v {
                record(d, x)?;
                d.ex.take(&name, x)?;
            }
            world::log(|| format!("{name}.take({n}) -> {}", v.len()));
        }
        14 => {
            let n = 1 + arg % 6;
            let t = d.ex.total() as usize;
            let v = it.all(n);
            ensure!(v.len() == n.min(t), "iter:lost", "{name}.all stopping at {n} saw {} items with {t} to come", v.len());
            for x in &v {
                record(d, x)?;
                d.ex.take(&name, x)?;
            }
            world::log(|| format!("{name}.all({n}) -> {}", v.len()));
        }
        _ => {
            let _ = it.hint();
        }
    }
    for d in its.iter() {
        if let Some(it) = &d.it {
            d.ex.size(&d.name, it.hint(), it.exact_len())?;
        }
    }
    Ok(())
}
