use proc_macro::TokenStream;

/// `#[tokio::main]`: the simulator calls the async main itself, once per service process. The
/// runtime asked for is told to the simulator.
#[proc_macro_attribute]
pub fn main(attr: TokenStream, item: TokenStream) -> TokenStream {
    let a: String = attr.to_string().chars().filter(|c| !c.is_whitespace()).collect();
    let single = a.contains("current_thread");
    let workers = a
        .split("worker_threads=")
        .nth(1)
        .map(|s| s.trim_start_matches('"').chars().take_while(|c| c.is_ascii_digit()).collect::<String>())
        .and_then(|s| s.parse::<usize>().ok())
        .unwrap_or(8);
    let item = item.to_string();
    let item = if item.trim_start().starts_with("pub ") { item } else { format!("pub {item}") };
    format!(
        "pub const SIM_SINGLE_THREAD: bool = {single};\npub const SIM_WORKERS: usize = {workers};\n#[allow(unused)] {item}"
    )
    .parse()
    .unwrap()
}
