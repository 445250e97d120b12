//! Harnesses over crates/linear and crates/nonlinear, compiled from /repo's working tree.
mod lin;
mod newton;
mod norm;
fn main() {
    let mut v = vec![];
    lin::register(&mut v);
    newton::register(&mut v);
    norm::register(&mut v);
    symx::main_with(v)
}
