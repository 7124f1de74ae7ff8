// stand-in for the crates.io crate of the same name (it only adds a link to the C++ runtime)
