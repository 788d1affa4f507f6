mod alloc;
mod cff;
mod cffr;
mod engine;
mod gen;
mod guided;
mod num;
mod ops;
mod props;
mod t2gen;
mod t2ref;
mod tables;
mod tapes;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn main() {
    let arguments: Vec<String> = std::env::args().skip(1).collect();
    let code = match arguments.first().map(|argument| argument.as_str()) {
        Some("check") if arguments.len() == 2 => engine::check(props::all(), &arguments[1]),
        Some("worker") => {
            engine::work(props::all(), &arguments[1..]);
            0
        }
        Some("alone") if arguments.len() == 2 => {
            props::alone::work(&arguments[1]);
            0
        }
        Some("replay") if arguments.len() == 2 => engine::replay(props::all(), &arguments[1]),
        _ => {
            eprintln!("pvcheck check ID | pvcheck replay FILE");
            2
        }
    };
    engine::finish(code);
}
