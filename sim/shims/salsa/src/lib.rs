//! A stand-in for the part of salsa-2022 that analyzer-core uses (salsa itself is a git dependency that is not available
//! offline): interned and input structs with stable storage, memoised functions keyed by their arguments, accumulators.
//! Semantics follow salsa: a tracked function runs once per distinct arguments and revision, what it pushed into an
//! accumulator is remembered with it, and a dependency cycle between tracked functions panics.
use std::{
	any::{Any, TypeId},
	cell::{Cell, RefCell},
	collections::{HashMap, HashSet},
	fmt::Debug,
	hash::Hash,
	marker::PhantomData,
};

pub use salsa_macros::{accumulator, db, input, interned, jar, tracked};

pub trait Database {}

pub trait HasStore {
	fn store(&self) -> &Store;
}

pub trait DbWithJar<J: ?Sized>: HasStore {}

pub trait Accumulator {
	type Data: Clone + 'static;
}

pub trait AsId {
	fn as_id(&self) -> u32;
}

pub struct Storage<DB: ?Sized> {
	store: Store,
	_db: PhantomData<fn(*const DB)>,
}

impl<DB: ?Sized> Default for Storage<DB> {
	fn default() -> Self { Storage { store: Store::default(), _db: PhantomData } }
}

impl<DB: ?Sized> Storage<DB> {
	pub fn store(&self) -> &Store { &self.store }
}

type Key = (TypeId, Vec<u32>);

#[derive(Default)]
struct Memo {
	value: Option<Box<dyn Any>>,
	calls: Vec<Key>,
	pushed: Vec<(TypeId, Box<dyn Any>)>,
}

#[derive(Default)]
pub struct Store {
	items: RefCell<Vec<Box<dyn Any>>>,
	interned: RefCell<HashMap<TypeId, Box<dyn Any>>>,
	memos: RefCell<HashMap<Key, Memo>>,
	// Values of superseded revisions; kept because they never get in the way.
	active: RefCell<Vec<(Key, Memo)>>,
	revision: Cell<u64>,
}

impl Store {
	pub fn create<F: 'static>(&self, fields: F) -> u32 {
		let mut items = self.items.borrow_mut();
		items.push(Box::new(fields));
		items.len() as u32 - 1
	}

	pub fn intern<T: 'static, F: Hash + Eq + Clone + 'static>(&self, fields: F) -> u32 {
		let mut interned = self.interned.borrow_mut();
		let map = interned.entry(TypeId::of::<T>()).or_insert_with(|| Box::new(HashMap::<F, u32>::new()));
		let map = map.downcast_mut::<HashMap<F, u32>>().unwrap();
		if let Some(id) = map.get(&fields) {
			return *id;
		}
		let id = self.create(fields.clone());
		map.insert(fields, id);
		id
	}

	pub fn fields<F: 'static>(&self, id: u32) -> &F {
		let items = self.items.borrow();
		let ptr = items[id as usize].downcast_ref::<F>().expect("salsa: an id was used with another database") as *const F;
		// Boxed items are only replaced through `&mut self`.
		unsafe { &*ptr }
	}

	/// Replaces a field of an input.
	pub fn update<F: 'static>(&self, id: u32, f: impl FnOnce(&mut F)) {
		f(self.items.borrow_mut()[id as usize].downcast_mut::<F>().unwrap());
		self.memos.borrow_mut().clear();
		self.revision.set(self.revision.get() + 1);
	}

	pub fn push<A: Accumulator + 'static>(&self, value: A::Data) {
		// Like salsa, values pushed outside of any query are lost.
		if let Some((_, memo)) = self.active.borrow_mut().last_mut() {
			memo.pushed.push((TypeId::of::<A>(), Box::new(value)));
		}
	}

	pub fn memoised<FN: 'static, T: 'static>(&self, args: Vec<u32>, run: impl FnOnce() -> T) -> &T {
		let key = (TypeId::of::<FN>(), args);
		{
			let mut active = self.active.borrow_mut();
			if active.iter().any(|(k, _)| *k == key) {
				drop(active);
				panic!("salsa: cycle detected but no cycle handler found");
			}
			if let Some((_, memo)) = active.last_mut() {
				memo.calls.push(key.clone());
			}
		}
		if !self.memos.borrow().contains_key(&key) {
			struct Guard<'a>(&'a Store, usize);
			impl Drop for Guard<'_> {
				fn drop(&mut self) { self.0.active.borrow_mut().truncate(self.1) }
			}
			let depth = self.active.borrow().len();
			let guard = Guard(self, depth);
			self.active.borrow_mut().push((key.clone(), Memo::default()));
			let value = run();
			let (_, mut memo) = self.active.borrow_mut().pop().unwrap();
			drop(guard);
			memo.value = Some(Box::new(value));
			self.memos.borrow_mut().insert(key.clone(), memo);
		}
		let memos = self.memos.borrow();
		let ptr = memos[&key].value.as_ref().unwrap().downcast_ref::<T>().unwrap() as *const T;
		unsafe { &*ptr }
	}

	pub fn accumulated<FN: 'static, A: Accumulator + 'static>(&self, args: Vec<u32>) -> Vec<A::Data> {
		let memos = self.memos.borrow();
		let mut stack = vec![(TypeId::of::<FN>(), args)];
		let mut seen: HashSet<Key> = stack.iter().cloned().collect();
		let mut out = Vec::new();
		while let Some(key) = stack.pop() {
			let memo = match memos.get(&key) {
				Some(m) => m,
				None => continue,
			};
			for (ty, v) in &memo.pushed {
				if *ty == TypeId::of::<A>() {
					out.push(v.downcast_ref::<A::Data>().unwrap().clone());
				}
			}
			for c in &memo.calls {
				if seen.insert(c.clone()) {
					stack.push(c.clone());
				}
			}
		}
		out
	}
}

pub struct Setter<'db, F: 'static, V> {
	store: &'db Store,
	id: u32,
	set: fn(&mut F, V) -> V,
}

impl<'db, F: 'static, V> Setter<'db, F, V> {
	pub fn new(store: &'db Store, id: u32, set: fn(&mut F, V) -> V) -> Self { Setter { store, id, set } }
	pub fn to(self, value: V) -> V {
		let mut old = None;
		self.store.update::<F>(self.id, |f| old = Some((self.set)(f, value)));
		old.unwrap()
	}
}

#[doc(hidden)]
pub fn fmt_id(name: &str, id: u32, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
	f.debug_struct(name).field("id", &(&id as &dyn Debug)).finish()
}
