} // verus
} // mod code
fn main() {}
