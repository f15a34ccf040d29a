fn main() { rqv::runner::main(&contracts_stochastics::registry()); }
