//! The real `tracing`, except that the global default subscriber belongs to the simulated process: it is forgotten at the end
//! of a run, so that every run can install its own.
pub use real::*;

pub mod subscriber {
	pub use real::subscriber::*;
	use real::{
		span::{Attributes, Id, Record},
		Dispatch, Event, Metadata, Subscriber,
	};
	use std::collections::HashMap;
	use std::sync::{Arc, Mutex, Once};

	#[derive(Default)]
	struct Current {
		dispatch: Mutex<Option<Dispatch>>,
		// outer span id -> inner span id; spans of an earlier run are unknown here
		spans: Mutex<HashMap<u64, (Id, usize)>>,
		next: Mutex<u64>,
	}

	struct Forward;

	fn current() -> Option<(Arc<Current>, Dispatch)> {
		if simrt::aborting() {
			return None;
		}
		let c = simrt::ext_opt::<Current>()?;
		let d = c.dispatch.lock().unwrap().clone()?;
		Some((c, d))
	}
	fn inner(c: &Current, id: &Id) -> Option<Id> { c.spans.lock().unwrap().get(&id.into_u64()).map(|x| x.0.clone()) }

	impl Subscriber for Forward {
		fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest { Interest::sometimes() }
		fn enabled(&self, m: &Metadata<'_>) -> bool { current().map_or(false, |(_, d)| d.enabled(m)) }
		fn new_span(&self, a: &Attributes<'_>) -> Id {
			match current() {
				Some((c, d)) => {
					let i = d.new_span(a);
					let mut n = c.next.lock().unwrap();
					*n += 1;
					c.spans.lock().unwrap().insert(*n, (i, 1));
					Id::from_u64(*n)
				}
				None => Id::from_u64(u64::MAX),
			}
		}
		fn record(&self, s: &Id, v: &Record<'_>) {
			if let Some((c, d)) = current() {
				if let Some(i) = inner(&c, s) {
					d.record(&i, v)
				}
			}
		}
		fn record_follows_from(&self, a: &Id, b: &Id) {
			if let Some((c, d)) = current() {
				if let (Some(a), Some(b)) = (inner(&c, a), inner(&c, b)) {
					d.record_follows_from(&a, &b)
				}
			}
		}
		fn event(&self, e: &Event<'_>) {
			if let Some((_, d)) = current() {
				d.event(e)
			}
		}
		fn enter(&self, s: &Id) {
			if let Some((c, d)) = current() {
				if let Some(i) = inner(&c, s) {
					d.enter(&i)
				}
			}
		}
		fn exit(&self, s: &Id) {
			if let Some((c, d)) = current() {
				if let Some(i) = inner(&c, s) {
					d.exit(&i)
				}
			}
		}
		fn clone_span(&self, s: &Id) -> Id {
			if let Some((c, d)) = current() {
				if let Some(e) = c.spans.lock().unwrap().get_mut(&s.into_u64()) {
					d.clone_span(&e.0);
					e.1 += 1;
				}
			}
			s.clone()
		}
		fn try_close(&self, s: Id) -> bool {
			if let Some((c, d)) = current() {
				let mut m = c.spans.lock().unwrap();
				if let Some(e) = m.get_mut(&s.into_u64()) {
					let i = e.0.clone();
					e.1 -= 1;
					if e.1 == 0 {
						m.remove(&s.into_u64());
					}
					drop(m);
					return d.try_close(i);
				}
			}
			false
		}
	}

	static INSTALL: Once = Once::new();

	pub fn set_global_default<S>(s: S) -> Result<(), SetGlobalDefaultError>
	where
		S: Subscriber + Send + Sync + 'static,
	{
		let c = match simrt::ext_opt::<Current>() {
			Some(c) => c,
			None => return real::subscriber::set_global_default(s),
		};
		INSTALL.call_once(|| {
			let _ = real::subscriber::set_global_default(Forward);
		});
		let mut d = c.dispatch.lock().unwrap();
		if d.is_some() {
			return real::subscriber::set_global_default(Forward);
		}
		*d = Some(Dispatch::new(s));
		Ok(())
	}
}
