//! The Python property: the same simulator; the binding's sources are compiled in, loaded as the
//! module `hudi._internal` of an embedded interpreter, and called by threads under a seeded scheduler.
#![allow(unexpected_cfgs)]

include!("/repo/python/src/lib.rs");

mod py;
mod sched;

fn main() {
    for (k, v) in [
        ("PYTHONDONTWRITEBYTECODE", "1"),
        ("PYTHONHASHSEED", "0"),
        ("PYTHONNOUSERSITE", "1"),
        ("ARROW_DEFAULT_MEMORY_POOL", "system"),
        ("OMP_NUM_THREADS", "1"),
    ] {
        std::env::set_var(k, v);
    }
    let _ = internal::sim::BLOCK_ON.set(sched::block_on);
    let cmd = std::env::args().nth(1).unwrap_or_default();
    if cmd != "check" {
        pyo3::append_to_inittab!(_internal);
        pyo3::prepare_freethreaded_python();
        Python::with_gil(|py| {
            py.run(
                c"import sys
sys.path[:0] = ['/repo/python', '/opt/vp/venv/lib/python3.12/site-packages']
import _internal
sys.modules['hudi._internal'] = _internal
import pyarrow, hudi
",
                None,
                None,
            )
            .expect("the Python package");
        });
    }
    hsim::run::set_hooks(hsim::run::Hooks {
        drive: |e, _| e.run(),
        sql: None,
        py: Some(py::session),
    });
    hsim::driver::main(hsim::run::isolated)
}
