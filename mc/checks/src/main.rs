mod props;
mod zoo;

fn main() {
    mcore::engine::main(props::run)
}
