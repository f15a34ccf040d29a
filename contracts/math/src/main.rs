fn main() { rqv::runner::main(&contracts_math::registry()); }
