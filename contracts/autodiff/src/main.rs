fn main() { rqv::runner::main(&contracts_autodiff::registry()); }
