pub use ::std::process::*;

/// Ends the simulated process.
pub fn exit(code: i32) -> ! {
	if simrt::in_sim() {
		simrt::log(format!("process exit {code}"));
		simrt::set_exit_code(code);
		crate::io::on_process_exit();
		simrt::ext::<ExitHook>().run(code);
		simrt::end_run()
	}
	::std::process::exit(code)
}

pub fn abort() -> ! {
	if simrt::in_sim() {
		simrt::fail("process-abort", "the simulated process called abort()".into());
	}
	::std::process::abort()
}

/// Checks the harness wants to make at the moment the process exits.
#[derive(Default)]
pub struct ExitHook(::std::sync::Mutex<Option<Box<dyn FnOnce(i32) + Send>>>);
impl ExitHook {
	pub fn set(&self, f: Box<dyn FnOnce(i32) + Send>) { *self.0.lock().unwrap() = Some(f) }
	fn run(&self, c: i32) {
		let f = self.0.lock().unwrap().take();
		if let Some(f) = f {
			f(c)
		}
	}
}
